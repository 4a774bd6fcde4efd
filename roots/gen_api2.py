# C03 numbers, C04 names (executed by gen_api.py)
HELP += '''
/// records what is fed to a hasher
pub struct Rec(pub Vec<T>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, bytes: &[u8]) { self.0.push(text(&format!("{bytes:?}"))); }
    fn write_u8(&mut self, x: u8) { self.0.push(int(x as u64)); }
    fn write_u32(&mut self, x: u32) { self.0.push(int(x as u64)); }
    fn write_u64(&mut self, x: u64) { self.0.push(int(x)); }
    fn write_usize(&mut self, x: usize) { self.0.push(int(x as u64)); }
    fn write_isize(&mut self, x: isize) { self.0.push(int(x as u64)); }
}
/// what a value feeds to a hasher
pub fn hashed<X: std::hash::Hash + ?Sized>(x: &X) -> T {
    let mut r = Rec(Vec::new());
    x.hash(&mut r);
    T::List(r.0)
}
pub fn ordering(x: std::cmp::Ordering) -> T {
    match x {
        std::cmp::Ordering::Less => node("less", []),
        std::cmp::Ordering::Equal => node("equal", []),
        std::cmp::Ordering::Greater => node("greater", []),
    }
}
/// the numeric order of finite floats
pub fn numeric(x: f32, y: f32) -> T {
    if x < y { node("less", []) } else if x > y { node("greater", []) } else { node("equal", []) }
}
'''
N2 = 'x: Number, y: Number'
eq('c03_try_new', 'v: f32', 'match Number::try_new(v) { Ok(n) => node("ok", [num(*n)]), Err(_) => node("err", []) }',
   'if v.is_finite() { node("ok", [num(v)]) } else { node("err", []) }')
eq('c03_new', 'v: f32', 'if v.is_finite() { num(*Number::new(v)) } else { num(0.0) }', 'if v.is_finite() { num(v) } else { num(0.0) }')
eq('c03_new_panics', 'v: f32', 'if v.is_finite() { b(true) } else { let n = Number::new(v); b((*n).is_finite()) }', 'b(true)')
eq('c03_from_f32', 'v: f32', 'if v.is_finite() { num(*Number::from(v)) } else { num(0.0) }', 'if v.is_finite() { num(v) } else { num(0.0) }')
eq('c03_from_f32_panics', 'v: f32', 'if v.is_finite() { b(true) } else { let n = Number::from(v); b((*n).is_finite()) }', 'b(true)')
eq('c03_from_f64', 'v: f64', 'let w = v as f32; if w.is_finite() { num(*Number::from(v)) } else { num(0.0) }',
   'let w = v as f32; if w.is_finite() { num(w) } else { num(0.0) }')
eq('c03_from_f64_panics', 'v: f64', 'let w = v as f32; if w.is_finite() { b(true) } else { let n = Number::from(v); b((*n).is_finite()) }', 'b(true)')
for t in 'i8 u8 i16 u16 i32 u32'.split():
    eq('c03_from_' + t, 'v: ' + t, 'num(*Number::from(v))', 'num(v as f32)')
    eq('c03_eq_' + t, f'x: Number, v: {t}', 'b(x == v)', 'b(*x == v as f32)')
eq('c03_from_str', "s: &'static str", 'match <Number as FromStr>::from_str(s) { Ok(n) => node("ok", [num(*n)]), Err(_) => node("err", []) }',
   'match f32::from_str(s) { Ok(v) if v.is_finite() => node("ok", [num(v)]), _ => node("err", []) }')
eq('c03_default', '', 'num(*Number::default())', 'num(0.0)')
eq('c03_finite', 'x: Number', 'b((*x).is_finite())', 'b(true)')
eq('c03_copy', 'x: Number', 'let y = x; num(*y)', 'num(*x)')
eq('c03_clone', 'x: Number', 'num(*Clone::clone(&x))', 'num(*x)')
eq('c03_cmp', N2, 'ordering(Ord::cmp(&x, &y))', 'numeric(*x, *y)')
eq('c03_partial_cmp', N2, 'match PartialOrd::partial_cmp(&x, &y) { Some(o) => node("some", [ordering(o)]), None => node("none", []) }',
   'node("some", [numeric(*x, *y)])')
eq('c03_eq', N2, 'b(x == y)', 'b(*x == *y)')
eq('c03_ne', N2, 'b(x != y)', 'b(!(*x == *y))')
eq('c03_lt', N2, 'b(x < y)', 'b(*x < *y)')
eq('c03_le', N2, 'b(x <= y)', 'b(*x <= *y)')
eq('c03_gt', N2, 'b(x > y)', 'b(*x > *y)')
eq('c03_ge', N2, 'b(x >= y)', 'b(*x >= *y)')
eq('c03_max', N2, 'num(*Ord::max(x, y))', 'num(if *x > *y { *x } else { *y })')
eq('c03_min', N2, 'num(*Ord::min(x, y))', 'num(if *y < *x { *y } else { *x })')
eq('c03_eq_f32', 'x: Number, v: f32', 'b(v.is_finite() && x == v)', 'b(v.is_finite() && *x == v)')
eq('c03_hash', N2, 'b(!(x == y) || same(&hashed(&x), &hashed(&y)))', 'b(true)')
eq('c03_zero_hash', '', 'b(same(&hashed(&Number::from(-0.0f32)), &hashed(&Number::from(0.0f32))))', 'b(true)')
eq('c03_transitive', 'x: Number, y: Number, z: Number', 'b(!(x <= y && y <= z) || x <= z)', 'b(true)')
eq('c03_total', N2, 'b((x < y) as u8 + (x == y) as u8 + (x > y) as u8 == 1)', 'b(true)')
eq('c03_order_equal', N2, 'b((Ord::cmp(&x, &y) == std::cmp::Ordering::Equal) == (x == y))', 'b(true)')

# ------------------------------------------------------------------------------ C04 names
S1 = "s: &'static str"
for how, a, x in (('new_str', S1, 'Name::new(s)'), ('new_string', 's: String', 'Name::new(s)'), ('new_static', S1, 'Name::new_static(s)'),
                  ('from_str', S1, 'Name::from(s)'), ('from_string', 's: String', 'Name::from(s)')):
    same_s = 's' if a == S1 else '&s'
    arg = 's.clone()' if a != S1 else 's'
    xx = x.replace('(s)', f'({arg})')
    eq(f'c04_{how}', a, f'text(&{xx})', f'text({same_s})')
    eq(f'c04_{how}_as_ref', a, f'text(AsRef::<str>::as_ref(&{xx}))', f'text({same_s})')
eq('c04_as_ref', 'x: Name', 'text(AsRef::<str>::as_ref(&x))', 'text(x.deref())')
eq('c04_default', '', 'text(&Name::default())', 'text("")')
eq('c04_len', 'x: Name', 'int(x.len() as u64)', 'int(x.deref().chars().count() as u64)')
eq('c04_is_empty', 'x: Name', 'b(x.is_empty())', 'b(x.deref() == "")')
eq('c04_eq', 'x: Name, y: Name', 'b(x == y)', 'b(x.deref() == y.deref())')
eq('c04_ne', 'x: Name, y: Name', 'b(x != y)', 'b(!(x.deref() == y.deref()))')
eq('c04_eq_str', "x: Name, s: &'static str", 'b(x == *s)', 'b(x.deref() == s)')
eq('c04_eq_ref_str', "x: Name, s: &'static str", 'b(x == s)', 'b(x.deref() == s)')
eq('c04_eq_string', 'x: Name, s: String', 'b(x == s)', 'b(x.deref() == s.as_str())')
eq('c04_hash', 'x: Name', 'hashed(&x)', 'hashed::<str>(x.deref())')
eq('c04_clone', 'x: Name', 'text(&x.clone())', 'text(&x)')
eq('c04_constructors_agree', "s: &'static str", 'b(Name::new(s) == Name::new_static(s) && Name::from(String::from(s)) == Name::new_static(s))', 'b(true)')
eq('c04_constructors_hash_alike', "s: &'static str", 'b(same(&hashed(&Name::new(s)), &hashed(&Name::new_static(s))))', 'b(true)')
