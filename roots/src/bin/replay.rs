//! Runs the real parsers: stdin lines "root hex(text)", stdout one JSON value per line:
//! ["ok", rest_bytes, tree] | ["err", kind] | ["panic", message]
use roots::droots::{replay, Outcome};
use roots::dump::T;
use roots::api::*;
use roots::make::{Make, Rng};
use std::io::{BufRead, Write};

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}

fn show(t: &T, o: &mut String) {
    match t {
        T::Node(l, ks) => {
            o.push_str("[\"n\",");
            esc(l, o);
            for k in ks {
                o.push(',');
                show(k, o);
            }
            o.push(']');
        }
        T::Text(s) => {
            o.push_str("[\"txt\",");
            esc(s, o);
            o.push(']');
        }
        T::Num(x) => o.push_str(&format!("[\"num\",{}]", x.to_bits())),
        T::U64(x) => o.push_str(&format!("[\"u64\",\"{}\"]", x)),
        T::List(xs) => {
            o.push_str("[\"list\"");
            for k in xs {
                o.push(',');
                show(k, o);
            }
            o.push(']');
        }
    }
}

/// equality of readings; floats by their bits
fn agree(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Num(x), T::Num(y)) => x.to_bits() == y.to_bits(),
        (T::Node(l, x), T::Node(k, y)) => l == k && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| agree(p, q)),
        (T::List(x), T::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| agree(p, q)),
        _ => a == b,
    }
}

/// one native run of an equation: None, or (arguments, specified, observed)
fn verdict(name: &str, shown: String, l: std::thread::Result<T>, r: std::thread::Result<T>) -> Option<(String, String, String)> {
    let r = match r { Ok(x) => x, Err(_) => return None };
    let sh = |t: &T| { let mut o = String::new(); show(t, &mut o); o };
    match l {
        Ok(x) if agree(&x, &r) => None,
        Ok(x) => Some((shown, sh(&r), sh(&x))),
        Err(_) if name.ends_with("_panics") => None,
        Err(_) => Some((shown, sh(&r), "[\"panic\"]".into())),
    }
}

macro_rules! table {
    ($($n:ident ($($a:ident : $t:ty),*) { $($l:tt)* } { $($rr:tt)* })*) => {
        #[allow(unused_mut, unused_variables, clippy::all)]
        fn once(name: &str, rng: &mut Rng, d: u32) -> Option<Option<(String, String, String)>> {
            match name {
                $(stringify!($n) => {
                    let seed = rng.next() | 1;
                    let build = || { let mut q = Rng::new(seed); $(q.argument(seed); let $a = <$t>::make(&mut q, d);)* ($($a,)*) };
                    let mut shown = String::new();
                    { let ($($a,)*) = build(); $(shown.push_str(&format!("{} = {:?}; ", stringify!($a), $a));)* }
                    let l = std::panic::catch_unwind(|| { let ($($a,)*) = build(); $n::l($($a),*) });
                    let r = std::panic::catch_unwind(|| { let ($($a,)*) = build(); $n::r($($a),*) });
                    Some(verdict(name, shown, l, r))
                })*
                _ => None,
            }
        }
    };
}
roots::with_equations!(table);

fn api(name: &str, seed: u64, millis: u64) {
    let t0 = std::time::Instant::now();
    let mut rng = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15));
    let mut runs = 0u64;
    let mut o = String::new();
    let mut fail = None;
    while t0.elapsed().as_millis() < millis as u128 && runs < 2_000_000 {
        match once(name, &mut rng, (runs % 4) as u32) {
            None => break,
            Some(None) => runs += 1,
            Some(Some(f)) => {
                runs += 1;
                fail = Some(f);
                break;
            }
        }
    }
    match fail {
        None => o.push_str("null"),
        Some((a, e, g)) => {
            o.push_str("{\"args\":");
            esc(&a, &mut o);
            o.push_str(&format!(",\"expect\":{e},\"got\":{g}}}"));
        }
    }
    println!("{{\"runs\":{runs},\"fail\":{o}}}");
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    if argv.len() > 3 && argv[1] == "--api" {
        // further arguments: words, and lengths marked by a #
        let mut mined = (vec![], vec![]);
        for a in &argv[5.min(argv.len())..] {
            match a.strip_prefix('#').and_then(|n| n.parse().ok()) {
                Some(n) => mined.1.push(n),
                None => mined.0.push(&*Box::leak(a.clone().into_boxed_str())),
            }
        }
        let _ = roots::make::MINED.set(mined);
        std::panic::set_hook(Box::new(|_| {}));
        let (n, s, ms) = (argv[2].clone(), argv[3].parse().unwrap(), argv[4].parse().unwrap());
        let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || api(&n, s, ms));
        h.unwrap().join().unwrap();
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(|| {
        let stdin = std::io::stdin();
        let mut out = std::io::BufWriter::new(std::io::stdout());
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let (root, hex) = line.split_once(' ').unwrap();
            let bytes: Vec<u8> =
                (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
            let text = String::from_utf8(bytes).unwrap();
            let r = std::panic::catch_unwind(|| replay(root, &text));
            let mut o = String::new();
            match r {
                Ok(Some(Outcome::Ok(rest, t))) => {
                    o.push_str(&format!("[\"ok\",{},", rest));
                    show(&t, &mut o);
                    o.push(']');
                }
                Ok(Some(Outcome::Err(k))) => o.push_str(&format!("[\"err\",{}]", k)),
                Ok(None) => o.push_str("[\"noroot\"]"),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                    o.push_str("[\"panic\",");
                    esc(&m.unwrap_or_default(), &mut o);
                    o.push(']');
                }
            }
            o.push('\n');
            out.write_all(o.as_bytes()).unwrap();
            out.flush().unwrap();
        }
    });
    h.unwrap().join().unwrap();
}
