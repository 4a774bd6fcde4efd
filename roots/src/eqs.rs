//! Generated by gen_api.py.
use crate::dump::*;
use pddl::*;

/// the documented expansion of a requirement, as a relation
pub fn expands(x: &Requirement, y: &Requirement) -> bool {
    match x { Requirement::QuantifiedPreconditions => matches!(y, Requirement::ExistentialPreconditions | Requirement::UniversalPreconditions), Requirement::Fluents => matches!(y, Requirement::NumericFluents | Requirement::ObjectFluents), Requirement::Adl => matches!(y, Requirement::Strips | Requirement::Typing | Requirement::NegativePreconditions | Requirement::DisjunctivePreconditions | Requirement::Equality | Requirement::ExistentialPreconditions | Requirement::UniversalPreconditions | Requirement::ConditionalEffects), r => same(&r.d(), &y.d()) }
}
/// x includes y: they are the same, or all that y stands for is among what x stands for
pub fn includes(x: &Requirement, y: &Requirement) -> bool {
    same(&x.d(), &y.d()) || match y {
        Requirement::QuantifiedPreconditions => expands(x, &Requirement::ExistentialPreconditions) && expands(x, &Requirement::UniversalPreconditions),
        Requirement::Fluents => expands(x, &Requirement::NumericFluents) && expands(x, &Requirement::ObjectFluents),
        Requirement::Adl => false,
        r => expands(x, r),
    }
}

/// records what is fed to a hasher
pub struct Rec(pub Vec<T>);
impl std::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, bytes: &[u8]) { self.0.push(text(&format!("{bytes:?}"))); }
    fn write_u8(&mut self, x: u8) { self.0.push(int(x as u64)); }
    fn write_u32(&mut self, x: u32) { self.0.push(int(x as u64)); }
    fn write_u64(&mut self, x: u64) { self.0.push(int(x)); }
    fn write_usize(&mut self, x: usize) { self.0.push(int(x as u64)); }
    fn write_isize(&mut self, x: isize) { self.0.push(int(x as u64)); }
}
/// what a value feeds to a hasher
pub fn hashed<X: std::hash::Hash + ?Sized>(x: &X) -> T {
    let mut r = Rec(Vec::new());
    x.hash(&mut r);
    T::List(r.0)
}
pub fn ordering(x: std::cmp::Ordering) -> T {
    match x {
        std::cmp::Ordering::Less => node("less", []),
        std::cmp::Ordering::Equal => node("equal", []),
        std::cmp::Ordering::Greater => node("greater", []),
    }
}
/// the numeric order of finite floats
pub fn numeric(x: f32, y: f32) -> T {
    if x < y { node("less", []) } else if x > y { node("greater", []) } else { node("equal", []) }
}

#[macro_export]
macro_rules! with_equations {
    ($m:ident) => {
        $m! {
c01_assignop_from_text (s: &'static str) { AssignOp::try_from(s).d() } { match s { "assign" => node("ok", [node("AssignOp.Assign", [])]), "change" => node("ok", [node("AssignOp.Assign", [])]), "scale-up" => node("ok", [node("AssignOp.ScaleUp", [])]), "scale-down" => node("ok", [node("AssignOp.ScaleDown", [])]), "increase" => node("ok", [node("AssignOp.Increase", [])]), "decrease" => node("ok", [node("AssignOp.Decrease", [])]), _ => node("err", []) } }
c01_assignop_shown (x: AssignOp) { text(&x.to_string()) } { match x { AssignOp::Decrease => text("decrease"), AssignOp::Increase => text("increase"), AssignOp::ScaleDown => text("scale-down"), AssignOp::ScaleUp => text("scale-up"), AssignOp::Assign => text("assign"), } }
c01_assignop_round_trip (x: AssignOp) { AssignOp::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_assignop_eq (x: AssignOp, y: AssignOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_assignopt_from_text (s: &'static str) { AssignOpT::try_from(s).d() } { match s { "increase" => node("ok", [node("AssignOpT.Increase", [])]), "decrease" => node("ok", [node("AssignOpT.Decrease", [])]), _ => node("err", []) } }
c01_assignopt_shown (x: AssignOpT) { text(&x.to_string()) } { match x { AssignOpT::Decrease => text("decrease"), AssignOpT::Increase => text("increase"), } }
c01_assignopt_round_trip (x: AssignOpT) { AssignOpT::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_assignopt_eq (x: AssignOpT, y: AssignOpT) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_binarycomp_from_text (s: &'static str) { BinaryComp::try_from(s).d() } { match s { ">" => node("ok", [node("BinaryComp.GreaterThan", [])]), "<" => node("ok", [node("BinaryComp.LessThan", [])]), "=" => node("ok", [node("BinaryComp.Equal", [])]), ">=" => node("ok", [node("BinaryComp.GreaterOrEqual", [])]), "<=" => node("ok", [node("BinaryComp.LessThanOrEqual", [])]), _ => node("err", []) } }
c01_binarycomp_shown (x: BinaryComp) { text(&x.to_string()) } { match x { BinaryComp::LessThanOrEqual => text("<="), BinaryComp::GreaterOrEqual => text(">="), BinaryComp::Equal => text("="), BinaryComp::LessThan => text("<"), BinaryComp::GreaterThan => text(">"), } }
c01_binarycomp_round_trip (x: BinaryComp) { BinaryComp::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_binarycomp_eq (x: BinaryComp, y: BinaryComp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_binaryop_from_text (s: &'static str) { BinaryOp::try_from(s).d() } { match s { "*" => node("ok", [node("BinaryOp.Multiplication", [])]), "+" => node("ok", [node("BinaryOp.Addition", [])]), "-" => node("ok", [node("BinaryOp.Subtraction", [])]), "/" => node("ok", [node("BinaryOp.Division", [])]), _ => node("err", []) } }
c01_binaryop_shown (x: BinaryOp) { text(&x.to_string()) } { match x { BinaryOp::Division => text("/"), BinaryOp::Subtraction => text("-"), BinaryOp::Addition => text("+"), BinaryOp::Multiplication => text("*"), } }
c01_binaryop_round_trip (x: BinaryOp) { BinaryOp::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_binaryop_eq (x: BinaryOp, y: BinaryOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_multiop_from_text (s: &'static str) { MultiOp::try_from(s).d() } { match s { "*" => node("ok", [node("MultiOp.Multiplication", [])]), "+" => node("ok", [node("MultiOp.Addition", [])]), _ => node("err", []) } }
c01_multiop_shown (x: MultiOp) { text(&x.to_string()) } { match x { MultiOp::Addition => text("+"), MultiOp::Multiplication => text("*"), } }
c01_multiop_round_trip (x: MultiOp) { MultiOp::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_multiop_eq (x: MultiOp, y: MultiOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_dop_from_text (s: &'static str) { DOp::try_from(s).d() } { match s { "=" => node("ok", [node("DOp.Equal", [])]), ">=" => node("ok", [node("DOp.GreaterOrEqual", [])]), "<=" => node("ok", [node("DOp.LessThanOrEqual", [])]), _ => node("err", []) } }
c01_dop_shown (x: DOp) { text(&x.to_string()) } { match x { DOp::LessThanOrEqual => text("<="), DOp::GreaterOrEqual => text(">="), DOp::Equal => text("="), } }
c01_dop_round_trip (x: DOp) { DOp::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_dop_eq (x: DOp, y: DOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_interval_from_text (s: &'static str) { Interval::try_from(s).d() } { match s { "all" => node("ok", [node("Interval.All", [])]), _ => node("err", []) } }
c01_interval_shown (x: Interval) { text(&x.to_string()) } { match x { Interval::All => text("all"), } }
c01_interval_round_trip (x: Interval) { Interval::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_interval_eq (x: Interval, y: Interval) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_optimization_from_text (s: &'static str) { Optimization::try_from(s).d() } { match s { "minimize" => node("ok", [node("Optimization.Minimize", [])]), "maximize" => node("ok", [node("Optimization.Maximize", [])]), _ => node("err", []) } }
c01_optimization_shown (x: Optimization) { text(&x.to_string()) } { match x { Optimization::Maximize => text("maximize"), Optimization::Minimize => text("minimize"), } }
c01_optimization_round_trip (x: Optimization) { Optimization::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_optimization_eq (x: Optimization, y: Optimization) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_timespecifier_from_text (s: &'static str) { TimeSpecifier::try_from(s).d() } { match s { "start" => node("ok", [node("TimeSpecifier.Start", [])]), "end" => node("ok", [node("TimeSpecifier.End", [])]), _ => node("err", []) } }
c01_timespecifier_shown (x: TimeSpecifier) { text(&x.to_string()) } { match x { TimeSpecifier::End => text("end"), TimeSpecifier::Start => text("start"), } }
c01_timespecifier_round_trip (x: TimeSpecifier) { TimeSpecifier::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_timespecifier_eq (x: TimeSpecifier, y: TimeSpecifier) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_requirement_from_text (s: &'static str) { Requirement::try_from(s).d() } { match s { ":strips" => node("ok", [node("Requirement.Strips", [])]), ":typing" => node("ok", [node("Requirement.Typing", [])]), ":negative-preconditions" => node("ok", [node("Requirement.NegativePreconditions", [])]), ":disjunctive-preconditions" => node("ok", [node("Requirement.DisjunctivePreconditions", [])]), ":equality" => node("ok", [node("Requirement.Equality", [])]), ":existential-preconditions" => node("ok", [node("Requirement.ExistentialPreconditions", [])]), ":universal-preconditions" => node("ok", [node("Requirement.UniversalPreconditions", [])]), ":quantified-preconditions" => node("ok", [node("Requirement.QuantifiedPreconditions", [])]), ":conditional-effects" => node("ok", [node("Requirement.ConditionalEffects", [])]), ":fluents" => node("ok", [node("Requirement.Fluents", [])]), ":numeric-fluents" => node("ok", [node("Requirement.NumericFluents", [])]), ":object-fluents" => node("ok", [node("Requirement.ObjectFluents", [])]), ":adl" => node("ok", [node("Requirement.Adl", [])]), ":durative-actions" => node("ok", [node("Requirement.DurativeActions", [])]), ":duration-inequalities" => node("ok", [node("Requirement.DurationInequalities", [])]), ":continuous-effects" => node("ok", [node("Requirement.ContinuousEffects", [])]), ":derived-predicates" => node("ok", [node("Requirement.DerivedPredicates", [])]), ":timed-initial-literals" => node("ok", [node("Requirement.TimedInitialLiterals", [])]), ":preferences" => node("ok", [node("Requirement.Preferences", [])]), ":constraints" => node("ok", [node("Requirement.Constraints", [])]), ":action-costs" => node("ok", [node("Requirement.ActionCosts", [])]), _ => node("err", []) } }
c01_requirement_shown (x: Requirement) { text(&x.to_string()) } { match x { Requirement::ActionCosts => text(":action-costs"), Requirement::Constraints => text(":constraints"), Requirement::Preferences => text(":preferences"), Requirement::TimedInitialLiterals => text(":timed-initial-literals"), Requirement::DerivedPredicates => text(":derived-predicates"), Requirement::ContinuousEffects => text(":continuous-effects"), Requirement::DurationInequalities => text(":duration-inequalities"), Requirement::DurativeActions => text(":durative-actions"), Requirement::Adl => text(":adl"), Requirement::ObjectFluents => text(":object-fluents"), Requirement::NumericFluents => text(":numeric-fluents"), Requirement::Fluents => text(":fluents"), Requirement::ConditionalEffects => text(":conditional-effects"), Requirement::QuantifiedPreconditions => text(":quantified-preconditions"), Requirement::UniversalPreconditions => text(":universal-preconditions"), Requirement::ExistentialPreconditions => text(":existential-preconditions"), Requirement::Equality => text(":equality"), Requirement::DisjunctivePreconditions => text(":disjunctive-preconditions"), Requirement::NegativePreconditions => text(":negative-preconditions"), Requirement::Typing => text(":typing"), Requirement::Strips => text(":strips"), } }
c01_requirement_round_trip (x: Requirement) { Requirement::try_from(x.to_string().as_str()).d() } { node("ok", [x.d()]) }
c01_requirement_eq (x: Requirement, y: Requirement) { b(x == y) } { b(same(&x.d(), &y.d())) }
c01_assignop_as_str (x: AssignOp) { text(x.as_str()) } { match x { AssignOp::Decrease => text("decrease"), AssignOp::Increase => text("increase"), AssignOp::ScaleDown => text("scale-down"), AssignOp::ScaleUp => text("scale-up"), AssignOp::Assign => text("assign"), } }
c01_assignop_as_ref (x: AssignOp) { text(AsRef::<str>::as_ref(&x)) } { match x { AssignOp::Decrease => text("decrease"), AssignOp::Increase => text("increase"), AssignOp::ScaleDown => text("scale-down"), AssignOp::ScaleUp => text("scale-up"), AssignOp::Assign => text("assign"), } }
c01_assignop_borrow (x: AssignOp) { text(Borrow::<str>::borrow(&x)) } { match x { AssignOp::Decrease => text("decrease"), AssignOp::Increase => text("increase"), AssignOp::ScaleDown => text("scale-down"), AssignOp::ScaleUp => text("scale-up"), AssignOp::Assign => text("assign"), } }
c01_assignop_eq_str (x: AssignOp, s: &'static str) { b(x == s) } { b(match x { AssignOp::Decrease => "decrease", AssignOp::Increase => "increase", AssignOp::ScaleDown => "scale-down", AssignOp::ScaleUp => "scale-up", AssignOp::Assign => "assign", } == s) }
c01_assignop_eq_string (x: AssignOp, s: String) { b(x == s) } { b(match x { AssignOp::Decrease => "decrease", AssignOp::Increase => "increase", AssignOp::ScaleDown => "scale-down", AssignOp::ScaleUp => "scale-up", AssignOp::Assign => "assign", } == s.as_str()) }
c01_assignop_eq_ref (x: AssignOp, y: AssignOp) { b(x == &y) } { b(x == y) }
c01_assignop_ref_eq (x: AssignOp, y: AssignOp) { b(&x == y) } { b(x == y) }
c01_requirement_as_str (x: Requirement) { text(x.as_str()) } { match x { Requirement::ActionCosts => text(":action-costs"), Requirement::Constraints => text(":constraints"), Requirement::Preferences => text(":preferences"), Requirement::TimedInitialLiterals => text(":timed-initial-literals"), Requirement::DerivedPredicates => text(":derived-predicates"), Requirement::ContinuousEffects => text(":continuous-effects"), Requirement::DurationInequalities => text(":duration-inequalities"), Requirement::DurativeActions => text(":durative-actions"), Requirement::Adl => text(":adl"), Requirement::ObjectFluents => text(":object-fluents"), Requirement::NumericFluents => text(":numeric-fluents"), Requirement::Fluents => text(":fluents"), Requirement::ConditionalEffects => text(":conditional-effects"), Requirement::QuantifiedPreconditions => text(":quantified-preconditions"), Requirement::UniversalPreconditions => text(":universal-preconditions"), Requirement::ExistentialPreconditions => text(":existential-preconditions"), Requirement::Equality => text(":equality"), Requirement::DisjunctivePreconditions => text(":disjunctive-preconditions"), Requirement::NegativePreconditions => text(":negative-preconditions"), Requirement::Typing => text(":typing"), Requirement::Strips => text(":strips"), } }
c01_requirement_as_ref (x: Requirement) { text(AsRef::<str>::as_ref(&x)) } { match x { Requirement::ActionCosts => text(":action-costs"), Requirement::Constraints => text(":constraints"), Requirement::Preferences => text(":preferences"), Requirement::TimedInitialLiterals => text(":timed-initial-literals"), Requirement::DerivedPredicates => text(":derived-predicates"), Requirement::ContinuousEffects => text(":continuous-effects"), Requirement::DurationInequalities => text(":duration-inequalities"), Requirement::DurativeActions => text(":durative-actions"), Requirement::Adl => text(":adl"), Requirement::ObjectFluents => text(":object-fluents"), Requirement::NumericFluents => text(":numeric-fluents"), Requirement::Fluents => text(":fluents"), Requirement::ConditionalEffects => text(":conditional-effects"), Requirement::QuantifiedPreconditions => text(":quantified-preconditions"), Requirement::UniversalPreconditions => text(":universal-preconditions"), Requirement::ExistentialPreconditions => text(":existential-preconditions"), Requirement::Equality => text(":equality"), Requirement::DisjunctivePreconditions => text(":disjunctive-preconditions"), Requirement::NegativePreconditions => text(":negative-preconditions"), Requirement::Typing => text(":typing"), Requirement::Strips => text(":strips"), } }
c01_requirement_borrow (x: Requirement) { text(Borrow::<str>::borrow(&x)) } { match x { Requirement::ActionCosts => text(":action-costs"), Requirement::Constraints => text(":constraints"), Requirement::Preferences => text(":preferences"), Requirement::TimedInitialLiterals => text(":timed-initial-literals"), Requirement::DerivedPredicates => text(":derived-predicates"), Requirement::ContinuousEffects => text(":continuous-effects"), Requirement::DurationInequalities => text(":duration-inequalities"), Requirement::DurativeActions => text(":durative-actions"), Requirement::Adl => text(":adl"), Requirement::ObjectFluents => text(":object-fluents"), Requirement::NumericFluents => text(":numeric-fluents"), Requirement::Fluents => text(":fluents"), Requirement::ConditionalEffects => text(":conditional-effects"), Requirement::QuantifiedPreconditions => text(":quantified-preconditions"), Requirement::UniversalPreconditions => text(":universal-preconditions"), Requirement::ExistentialPreconditions => text(":existential-preconditions"), Requirement::Equality => text(":equality"), Requirement::DisjunctivePreconditions => text(":disjunctive-preconditions"), Requirement::NegativePreconditions => text(":negative-preconditions"), Requirement::Typing => text(":typing"), Requirement::Strips => text(":strips"), } }
c01_requirement_eq_str (x: Requirement, s: &'static str) { b(x == s) } { b(match x { Requirement::ActionCosts => ":action-costs", Requirement::Constraints => ":constraints", Requirement::Preferences => ":preferences", Requirement::TimedInitialLiterals => ":timed-initial-literals", Requirement::DerivedPredicates => ":derived-predicates", Requirement::ContinuousEffects => ":continuous-effects", Requirement::DurationInequalities => ":duration-inequalities", Requirement::DurativeActions => ":durative-actions", Requirement::Adl => ":adl", Requirement::ObjectFluents => ":object-fluents", Requirement::NumericFluents => ":numeric-fluents", Requirement::Fluents => ":fluents", Requirement::ConditionalEffects => ":conditional-effects", Requirement::QuantifiedPreconditions => ":quantified-preconditions", Requirement::UniversalPreconditions => ":universal-preconditions", Requirement::ExistentialPreconditions => ":existential-preconditions", Requirement::Equality => ":equality", Requirement::DisjunctivePreconditions => ":disjunctive-preconditions", Requirement::NegativePreconditions => ":negative-preconditions", Requirement::Typing => ":typing", Requirement::Strips => ":strips", } == s) }
c01_requirement_eq_string (x: Requirement, s: String) { b(x == s) } { b(match x { Requirement::ActionCosts => ":action-costs", Requirement::Constraints => ":constraints", Requirement::Preferences => ":preferences", Requirement::TimedInitialLiterals => ":timed-initial-literals", Requirement::DerivedPredicates => ":derived-predicates", Requirement::ContinuousEffects => ":continuous-effects", Requirement::DurationInequalities => ":duration-inequalities", Requirement::DurativeActions => ":durative-actions", Requirement::Adl => ":adl", Requirement::ObjectFluents => ":object-fluents", Requirement::NumericFluents => ":numeric-fluents", Requirement::Fluents => ":fluents", Requirement::ConditionalEffects => ":conditional-effects", Requirement::QuantifiedPreconditions => ":quantified-preconditions", Requirement::UniversalPreconditions => ":universal-preconditions", Requirement::ExistentialPreconditions => ":existential-preconditions", Requirement::Equality => ":equality", Requirement::DisjunctivePreconditions => ":disjunctive-preconditions", Requirement::NegativePreconditions => ":negative-preconditions", Requirement::Typing => ":typing", Requirement::Strips => ":strips", } == s.as_str()) }
c01_requirement_eq_ref (x: Requirement, y: Requirement) { b(x == &y) } { b(x == y) }
c01_requirement_ref_eq (x: Requirement, y: Requirement) { b(&x == y) } { b(x == y) }
c01_multi_to_binary (x: MultiOp) { BinaryOp::from(x).d() } { match x { MultiOp::Multiplication => node("BinaryOp.Multiplication", []), MultiOp::Addition => node("BinaryOp.Addition", []) } }
c01_binary_to_multi (x: BinaryOp) { MultiOp::try_from(x).d() } { match x { BinaryOp::Multiplication => node("ok", [node("MultiOp.Multiplication", [])]), BinaryOp::Addition => node("ok", [node("MultiOp.Addition", [])]), _ => node("err", []) } }
c02_expand (x: Requirement, y: Requirement) { b(x.expand().contains(&y)) } { b(expands(&x, &y)) }
c02_expand_once (x: Requirement) { int(x.expand().len() as u64) } { match x { Requirement::QuantifiedPreconditions => int(2), Requirement::Fluents => int(2), Requirement::Adl => int(8), _ => int(1) } }
c02_contains (x: Requirement, y: Requirement) { b(!matches!((&x, &y), (Requirement::Adl, Requirement::ContinuousEffects)) && x.contains(&y)) } { b(!matches!((&x, &y), (Requirement::Adl, Requirement::ContinuousEffects)) && includes(&x, &y)) }
c02_contains_continuous () { b(Requirement::Adl.contains(&Requirement::ContinuousEffects)) } { b(includes(&Requirement::Adl, &Requirement::ContinuousEffects)) }
c02_contains_owned (x: Requirement, y: Requirement) { b(x.contains(y)) } { b(x.contains(&y)) }
c02_effective (rs: Requirements, y: Requirement) { b(rs.to_effective().contains(&y)) } { if rs.is_empty() { b(same(&y.d(), &Requirement::Strips.d())) } else { b(rs.iter().any(|x| expands(x, &y))) } }
c03_try_new (v: f32) { match Number::try_new(v) { Ok(n) => node("ok", [num(*n)]), Err(_) => node("err", []) } } { if v.is_finite() { node("ok", [num(v)]) } else { node("err", []) } }
c03_new (v: f32) { if v.is_finite() { num(*Number::new(v)) } else { num(0.0) } } { if v.is_finite() { num(v) } else { num(0.0) } }
c03_new_panics (v: f32) { if v.is_finite() { b(true) } else { let n = Number::new(v); b((*n).is_finite()) } } { b(true) }
c03_from_f32 (v: f32) { if v.is_finite() { num(*Number::from(v)) } else { num(0.0) } } { if v.is_finite() { num(v) } else { num(0.0) } }
c03_from_f32_panics (v: f32) { if v.is_finite() { b(true) } else { let n = Number::from(v); b((*n).is_finite()) } } { b(true) }
c03_from_f64 (v: f64) { let w = v as f32; if w.is_finite() { num(*Number::from(v)) } else { num(0.0) } } { let w = v as f32; if w.is_finite() { num(w) } else { num(0.0) } }
c03_from_f64_panics (v: f64) { let w = v as f32; if w.is_finite() { b(true) } else { let n = Number::from(v); b((*n).is_finite()) } } { b(true) }
c03_from_i8 (v: i8) { num(*Number::from(v)) } { num(v as f32) }
c03_eq_i8 (x: Number, v: i8) { b(x == v) } { b(*x == v as f32) }
c03_from_u8 (v: u8) { num(*Number::from(v)) } { num(v as f32) }
c03_eq_u8 (x: Number, v: u8) { b(x == v) } { b(*x == v as f32) }
c03_from_i16 (v: i16) { num(*Number::from(v)) } { num(v as f32) }
c03_eq_i16 (x: Number, v: i16) { b(x == v) } { b(*x == v as f32) }
c03_from_u16 (v: u16) { num(*Number::from(v)) } { num(v as f32) }
c03_eq_u16 (x: Number, v: u16) { b(x == v) } { b(*x == v as f32) }
c03_from_i32 (v: i32) { num(*Number::from(v)) } { num(v as f32) }
c03_eq_i32 (x: Number, v: i32) { b(x == v) } { b(*x == v as f32) }
c03_from_u32 (v: u32) { num(*Number::from(v)) } { num(v as f32) }
c03_eq_u32 (x: Number, v: u32) { b(x == v) } { b(*x == v as f32) }
c03_from_str (s: &'static str) { match <Number as FromStr>::from_str(s) { Ok(n) => node("ok", [num(*n)]), Err(_) => node("err", []) } } { match f32::from_str(s) { Ok(v) if v.is_finite() => node("ok", [num(v)]), _ => node("err", []) } }
c03_default () { num(*Number::default()) } { num(0.0) }
c03_finite (x: Number) { b((*x).is_finite()) } { b(true) }
c03_copy (x: Number) { let y = x; num(*y) } { num(*x) }
c03_clone (x: Number) { num(*Clone::clone(&x)) } { num(*x) }
c03_cmp (x: Number, y: Number) { ordering(Ord::cmp(&x, &y)) } { numeric(*x, *y) }
c03_partial_cmp (x: Number, y: Number) { match PartialOrd::partial_cmp(&x, &y) { Some(o) => node("some", [ordering(o)]), None => node("none", []) } } { node("some", [numeric(*x, *y)]) }
c03_eq (x: Number, y: Number) { b(x == y) } { b(*x == *y) }
c03_ne (x: Number, y: Number) { b(x != y) } { b(!(*x == *y)) }
c03_lt (x: Number, y: Number) { b(x < y) } { b(*x < *y) }
c03_le (x: Number, y: Number) { b(x <= y) } { b(*x <= *y) }
c03_gt (x: Number, y: Number) { b(x > y) } { b(*x > *y) }
c03_ge (x: Number, y: Number) { b(x >= y) } { b(*x >= *y) }
c03_max (x: Number, y: Number) { num(*Ord::max(x, y)) } { num(if *x > *y { *x } else { *y }) }
c03_min (x: Number, y: Number) { num(*Ord::min(x, y)) } { num(if *y < *x { *y } else { *x }) }
c03_eq_f32 (x: Number, v: f32) { b(v.is_finite() && x == v) } { b(v.is_finite() && *x == v) }
c03_hash (x: Number, y: Number) { b(!(x == y) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c03_zero_hash () { b(same(&hashed(&Number::from(-0.0f32)), &hashed(&Number::from(0.0f32)))) } { b(true) }
c03_transitive (x: Number, y: Number, z: Number) { b(!(x <= y && y <= z) || x <= z) } { b(true) }
c03_total (x: Number, y: Number) { b((x < y) as u8 + (x == y) as u8 + (x > y) as u8 == 1) } { b(true) }
c03_order_equal (x: Number, y: Number) { b((Ord::cmp(&x, &y) == std::cmp::Ordering::Equal) == (x == y)) } { b(true) }
c04_new_str (s: &'static str) { text(&Name::new(s)) } { text(s) }
c04_new_str_as_ref (s: &'static str) { text(AsRef::<str>::as_ref(&Name::new(s))) } { text(s) }
c04_new_string (s: String) { text(&Name::new(s.clone())) } { text(&s) }
c04_new_string_as_ref (s: String) { text(AsRef::<str>::as_ref(&Name::new(s.clone()))) } { text(&s) }
c04_new_static (s: &'static str) { text(&Name::new_static(s)) } { text(s) }
c04_new_static_as_ref (s: &'static str) { text(AsRef::<str>::as_ref(&Name::new_static(s))) } { text(s) }
c04_from_str (s: &'static str) { text(&Name::from(s)) } { text(s) }
c04_from_str_as_ref (s: &'static str) { text(AsRef::<str>::as_ref(&Name::from(s))) } { text(s) }
c04_from_string (s: String) { text(&Name::from(s.clone())) } { text(&s) }
c04_from_string_as_ref (s: String) { text(AsRef::<str>::as_ref(&Name::from(s.clone()))) } { text(&s) }
c04_as_ref (x: Name) { text(AsRef::<str>::as_ref(&x)) } { text(x.deref()) }
c04_default () { text(&Name::default()) } { text("") }
c04_len (x: Name) { int(x.len() as u64) } { int(x.deref().chars().count() as u64) }
c04_is_empty (x: Name) { b(x.is_empty()) } { b(x.deref() == "") }
c04_eq (x: Name, y: Name) { b(x == y) } { b(x.deref() == y.deref()) }
c04_ne (x: Name, y: Name) { b(x != y) } { b(!(x.deref() == y.deref())) }
c04_eq_str (x: Name, s: &'static str) { b(x == *s) } { b(x.deref() == s) }
c04_eq_ref_str (x: Name, s: &'static str) { b(x == s) } { b(x.deref() == s) }
c04_eq_string (x: Name, s: String) { b(x == s) } { b(x.deref() == s.as_str()) }
c04_hash (x: Name) { hashed(&x) } { hashed::<str>(x.deref()) }
c04_clone (x: Name) { text(&x.clone()) } { text(&x) }
c04_constructors_agree (s: &'static str) { b(Name::new(s) == Name::new_static(s) && Name::from(String::from(s)) == Name::new_static(s)) } { b(true) }
c04_constructors_hash_alike (s: &'static str) { b(same(&hashed(&Name::new(s)), &hashed(&Name::new_static(s)))) } { b(true) }
c17_ceffect_new_p_effect (p: PEffect) { (CEffect::new_p_effect(p)).d() } { node("CEffect.Effect", [p.d()]) }
c17_ceffect_of_effect (p: PEffect) { (<CEffect as From<PEffect>>::from(p)).d() } { node("CEffect.Effect", [p.d()]) }
c17_ceffect_of_forall (p: ForallCEffect) { (<CEffect as From<ForallCEffect>>::from(p)).d() } { node("CEffect.Forall", [p.d()]) }
c17_ceffect_of_when (p: WhenCEffect) { (<CEffect as From<WhenCEffect>>::from(p)).d() } { node("CEffect.When", [p.d()]) }
c17_con_gd_new_and (p: Vec<ConGD>) { (ConGD::new_and(p)).d() } { node("ConGD.And", [p.d()]) }
c17_con_gd_new_forall (p: TypedVariables, q: ConGD) { (ConGD::new_forall(p, q)).d() } { node("ConGD.Forall", [p.d(), q.d()]) }
c17_con_gd_new_at_end (p: GoalDefinition) { (ConGD::new_at_end(p)).d() } { node("ConGD.AtEnd", [p.d()]) }
c17_con_gd_new_always (p: Con2GD) { (ConGD::new_always(p)).d() } { node("ConGD.Always", [p.d()]) }
c17_con_gd_new_sometime (p: Con2GD) { (ConGD::new_sometime(p)).d() } { node("ConGD.Sometime", [p.d()]) }
c17_con_gd_new_within (p: Number, q: Con2GD) { (ConGD::new_within(p, q)).d() } { node("ConGD.Within", [p.d(), q.d()]) }
c17_con_gd_new_at_most_once (p: Con2GD) { (ConGD::new_at_most_once(p)).d() } { node("ConGD.AtMostOnce", [p.d()]) }
c17_con_gd_new_sometime_after (p: Con2GD, q: Con2GD) { (ConGD::new_sometime_after(p, q)).d() } { node("ConGD.SometimeAfter", [p.d(), q.d()]) }
c17_con_gd_new_sometime_before (p: Con2GD, q: Con2GD) { (ConGD::new_sometime_before(p, q)).d() } { node("ConGD.SometimeBefore", [p.d(), q.d()]) }
c17_con_gd_new_always_within (p: Number, q: Con2GD, r: Con2GD) { (ConGD::new_always_within(p, q, r)).d() } { node("ConGD.AlwaysWithin", [p.d(), q.d(), r.d()]) }
c17_con_gd_new_hold_during (p: Number, q: Number, r: Con2GD) { (ConGD::new_hold_during(p, q, r)).d() } { node("ConGD.HoldDuring", [p.d(), q.d(), r.d()]) }
c17_con_gd_new_hold_after (p: Number, q: Con2GD) { (ConGD::new_hold_after(p, q)).d() } { node("ConGD.HoldAfter", [p.d(), q.d()]) }
c17_con2_gd_new_nested (p: ConGD) { (Con2GD::new_nested(p)).d() } { node("Con2GD.Nested", [p.d()]) }
c17_con2_gd_of_nested (p: ConGD) { (<Con2GD as From<ConGD>>::from(p)).d() } { node("Con2GD.Nested", [p.d()]) }
c17_con2_gd_new_goal (p: GoalDefinition) { (Con2GD::new_goal(p)).d() } { node("Con2GD.Goal", [p.d()]) }
c17_con2_gd_of_goal (p: GoalDefinition) { (<Con2GD as From<GoalDefinition>>::from(p)).d() } { node("Con2GD.Goal", [p.d()]) }
c17_conditional_effect_new (p: PEffect) { (ConditionalEffect::new(p)).d() } { node("ConditionalEffect.Single", [p.d()]) }
c17_conditional_effect_of_single (p: PEffect) { (<ConditionalEffect as From<PEffect>>::from(p)).d() } { node("ConditionalEffect.Single", [p.d()]) }
c17_conditional_effect_new_and (p: Vec<PEffect>) { (ConditionalEffect::new_and(p)).d() } { node("ConditionalEffect.All", [p.d()]) }
c17_conditional_effect_of_all (p: Vec<PEffect>) { (<ConditionalEffect as From<Vec<PEffect>>>::from(p)).d() } { node("ConditionalEffect.All", [p.d()]) }
c17_conditional_effect_collected (p: Vec<PEffect>) { (p.into_iter().collect::<ConditionalEffect>()).d() } { node("ConditionalEffect.All", [p.d()]) }
c17_duration_value_new_number (p: Number) { (DurationValue::new_number(p)).d() } { node("DurationValue.Number", [p.d()]) }
c17_duration_value_of_number (p: Number) { (<DurationValue as From<Number>>::from(p)).d() } { node("DurationValue.Number", [p.d()]) }
c17_duration_value_new_f_exp (p: FExp) { (DurationValue::new_f_exp(p)).d() } { node("DurationValue.FExp", [p.d()]) }
c17_duration_value_of_fexp (p: FExp) { (<DurationValue as From<FExp>>::from(p)).d() } { node("DurationValue.FExp", [p.d()]) }
c17_duration_constraint_new (p: SimpleDurationConstraint) { (DurationConstraint::new(p)).d() } { node("DurationConstraint.Single", [p.d()]) }
c17_duration_constraint_of_single (p: SimpleDurationConstraint) { (<DurationConstraint as From<SimpleDurationConstraint>>::from(p)).d() } { node("DurationConstraint.Single", [p.d()]) }
c17_durative_action_effect_new_timed (p: TimedEffect) { (DurativeActionEffect::new_timed(p)).d() } { node("DurativeActionEffect.Timed", [p.d()]) }
c17_durative_action_effect_of_timed (p: TimedEffect) { (<DurativeActionEffect as From<TimedEffect>>::from(p)).d() } { node("DurativeActionEffect.Timed", [p.d()]) }
c17_durative_action_effect_new_and (p: Vec<DurativeActionEffect>) { (DurativeActionEffect::new_and(p)).d() } { node("DurativeActionEffect.All", [p.d()]) }
c17_durative_action_effect_collected (p: Vec<DurativeActionEffect>) { (p.into_iter().collect::<DurativeActionEffect>()).d() } { node("DurativeActionEffect.All", [p.d()]) }
c17_durative_action_effect_new_forall (p: TypedVariables, q: DurativeActionEffect) { (DurativeActionEffect::new_forall(p, q)).d() } { node("DurativeActionEffect.Forall", [p.d(), q.d()]) }
c17_durative_action_effect_of_forall (p: TypedVariables, q: DurativeActionEffect) { (<DurativeActionEffect as From<(TypedVariables,DurativeActionEffect)>>::from((p, q))).d() } { node("DurativeActionEffect.Forall", [p.d(), q.d()]) }
c17_durative_action_effect_new_when (p: DurativeActionGoalDefinition, q: TimedEffect) { (DurativeActionEffect::new_when(p, q)).d() } { node("DurativeActionEffect.When", [p.d(), q.d()]) }
c17_durative_action_effect_of_when (p: DurativeActionGoalDefinition, q: TimedEffect) { (<DurativeActionEffect as From<(DurativeActionGoalDefinition,TimedEffect)>>::from((p, q))).d() } { node("DurativeActionEffect.When", [p.d(), q.d()]) }
c17_durative_action_goal_definition_new_timed (p: PrefTimedGD) { (DurativeActionGoalDefinition::new_timed(p)).d() } { node("DurativeActionGoalDefinition.Timed", [p.d()]) }
c17_durative_action_goal_definition_of_timed (p: PrefTimedGD) { (<DurativeActionGoalDefinition as From<PrefTimedGD>>::from(p)).d() } { node("DurativeActionGoalDefinition.Timed", [p.d()]) }
c17_durative_action_goal_definition_new_and (p: Vec<DurativeActionGoalDefinition>) { (DurativeActionGoalDefinition::new_and(p)).d() } { node("DurativeActionGoalDefinition.And", [p.d()]) }
c17_durative_action_goal_definition_new_forall (p: TypedVariables, q: DurativeActionGoalDefinition) { (DurativeActionGoalDefinition::new_forall(p, q)).d() } { node("DurativeActionGoalDefinition.Forall", [p.d(), q.d()]) }
c17_fexp_new_number (p: Number) { (FExp::new_number(p)).d() } { node("FExp.Number", [p.d()]) }
c17_fexp_new_binary_op (p: BinaryOp, q: FExp, r: FExp) { (FExp::new_binary_op(p, q, r)).d() } { node("FExp.BinaryOp", [p.d(), q.d(), r.d()]) }
c17_fexp_new_multi_op (p: MultiOp, q: FExp, r: Vec<FExp>) { (FExp::new_multi_op(p, q, r)).d() } { node("FExp.MultiOp", [p.d(), q.d(), r.d()]) }
c17_fexp_new_negative (p: FExp) { (FExp::new_negative(p)).d() } { node("FExp.Negative", [p.d()]) }
c17_fexp_new_function (p: FHead) { (FExp::new_function(p)).d() } { node("FExp.Function", [p.d()]) }
c17_fexp_da_new_duration () { (FExpDa::new_duration()).d() } { node("FExpDa.Duration", []) }
c17_fexp_da_new_binary_op (p: BinaryOp, q: FExpDa, r: FExpDa) { (FExpDa::new_binary_op(p, q, r)).d() } { node("FExpDa.BinaryOp", [p.d(), q.d(), r.d()]) }
c17_fexp_da_new_multi_op (p: MultiOp, q: FExpDa, r: Vec<FExpDa>) { (FExpDa::new_multi_op(p, q, r)).d() } { node("FExpDa.MultiOp", [p.d(), q.d(), r.d()]) }
c17_fexp_da_new_negative (p: FExpDa) { (FExpDa::new_negative(p)).d() } { node("FExpDa.Negative", [p.d()]) }
c17_fexp_da_new_f_exp (p: FExp) { (FExpDa::new_f_exp(p)).d() } { node("FExpDa.FExp", [p.d()]) }
c17_fexp_da_of_fexp (p: FExp) { (<FExpDa as From<FExp>>::from(p)).d() } { node("FExpDa.FExp", [p.d()]) }
c17_fexp_t_new () { (FExpT::new()).d() } { node("FExpT.Now", []) }
c17_fexp_t_new_scaled (p: FExp) { (FExpT::new_scaled(p)).d() } { node("FExpT.Scaled", [p.d()]) }
c17_fexp_t_of_scaled (p: FExp) { (<FExpT as From<FExp>>::from(p)).d() } { node("FExpT.Scaled", [p.d()]) }
c17_fhead_new (p: FunctionSymbol) { (FHead::new(p)).d() } { node("FHead.Simple", [p.d()]) }
c17_fhead_new_with_terms (p: FunctionSymbol, q: Vec<Term>) { (FHead::new_with_terms(p, q)).d() } { node("FHead.WithTerms", [p.d(), q.d()]) }
c17_goal_definition_new_atomic_formula (p: AtomicFormula<Term>) { (GoalDefinition::new_atomic_formula(p)).d() } { node("GoalDefinition.AtomicFormula", [p.d()]) }
c17_goal_definition_new_literal (p: TermLiteral) { (GoalDefinition::new_literal(p)).d() } { node("GoalDefinition.Literal", [p.d()]) }
c17_goal_definition_new_and (p: Vec<GoalDefinition>) { (GoalDefinition::new_and(p)).d() } { node("GoalDefinition.And", [p.d()]) }
c17_goal_definition_new_or (p: Vec<GoalDefinition>) { (GoalDefinition::new_or(p)).d() } { node("GoalDefinition.Or", [p.d()]) }
c17_goal_definition_new_not (p: GoalDefinition) { (GoalDefinition::new_not(p)).d() } { node("GoalDefinition.Not", [p.d()]) }
c17_goal_definition_new_imply (p: GoalDefinition, q: GoalDefinition) { (GoalDefinition::new_imply(p, q)).d() } { node("GoalDefinition.Imply", [p.d(), q.d()]) }
c17_goal_definition_new_exists (p: TypedVariables, q: GoalDefinition) { (GoalDefinition::new_exists(p, q)).d() } { node("GoalDefinition.Exists", [p.d(), q.d()]) }
c17_goal_definition_new_forall (p: TypedVariables, q: GoalDefinition) { (GoalDefinition::new_forall(p, q)).d() } { node("GoalDefinition.ForAll", [p.d(), q.d()]) }
c17_goal_definition_new_f_comp (p: FComp) { (GoalDefinition::new_f_comp(p)).d() } { node("GoalDefinition.FComp", [p.d()]) }
c17_init_element_new_literal (p: NameLiteral) { (InitElement::new_literal(p)).d() } { node("InitElement.Literal", [p.d()]) }
c17_init_element_new_at (p: Number, q: NameLiteral) { (InitElement::new_at(p, q)).d() } { node("InitElement.At", [p.d(), q.d()]) }
c17_init_element_new_is_value (p: BasicFunctionTerm, q: Number) { (InitElement::new_is_value(p, q)).d() } { node("InitElement.IsValue", [p.d(), q.d()]) }
c17_init_element_new_is_object (p: BasicFunctionTerm, q: Name) { (InitElement::new_is_object(p, q)).d() } { node("InitElement.IsObject", [p.d(), q.d()]) }
c17_metric_fexp_new_binary_op (p: BinaryOp, q: MetricFExp, r: MetricFExp) { (MetricFExp::new_binary_op(p, q, r)).d() } { node("MetricFExp.BinaryOp", [p.d(), q.d(), r.d()]) }
c17_metric_fexp_new_negative (p: MetricFExp) { (MetricFExp::new_negative(p)).d() } { node("MetricFExp.Negative", [p.d()]) }
c17_metric_fexp_new_number (p: Number) { (MetricFExp::new_number(p)).d() } { node("MetricFExp.Number", [p.d()]) }
c17_metric_fexp_new_function (p: FunctionSymbol, q: Vec<Name>) { (MetricFExp::new_function(p, q)).d() } { node("MetricFExp.Function", [p.d(), q.d()]) }
c17_metric_fexp_new_total_time () { (MetricFExp::new_total_time()).d() } { node("MetricFExp.TotalTime", []) }
c17_metric_fexp_new_is_violated (p: PreferenceName) { (MetricFExp::new_is_violated(p)).d() } { node("MetricFExp.IsViolated", [p.d()]) }
c17_peffect_new (p: AtomicFormula<Term>) { (PEffect::new(p)).d() } { node("PEffect.AtomicFormula", [p.d()]) }
c17_peffect_new_not (p: AtomicFormula<Term>) { (PEffect::new_not(p)).d() } { node("PEffect.NotAtomicFormula", [p.d()]) }
c17_peffect_new_numeric_fluent (p: AssignOp, q: FHead, r: FExp) { (PEffect::new_numeric_fluent(p, q, r)).d() } { node("PEffect.AssignNumericFluent", [p.d(), q.d(), r.d()]) }
c17_peffect_new_object_fluent (p: FunctionTerm, q: Option<Term>) { (PEffect::new_object_fluent(p, q)).d() } { node("PEffect.AssignObjectFluent", [p.d(), q.d()]) }
c17_precondition_goal_definition_new_preference (p: PreferenceGD) { (PreconditionGoalDefinition::new_preference(p)).d() } { node("PreconditionGoalDefinition.Preference", [p.d()]) }
c17_precondition_goal_definition_of_preference (p: PreferenceGD) { (<PreconditionGoalDefinition as From<PreferenceGD>>::from(p)).d() } { node("PreconditionGoalDefinition.Preference", [p.d()]) }
c17_precondition_goal_definition_new_forall (p: TypedVariables, q: PreconditionGoalDefinitions) { (PreconditionGoalDefinition::new_forall(p, q)).d() } { node("PreconditionGoalDefinition.Forall", [p.d(), q.d()]) }
c17_pref_con_gd_new_goal (p: ConGD) { (PrefConGD::new_goal(p)).d() } { node("PrefConGD.Goal", [p.d()]) }
c17_pref_con_gd_new_forall (p: TypedVariables, q: PrefConGDs) { (PrefConGD::new_forall(p, q)).d() } { node("PrefConGD.Forall", [p.d(), q.d()]) }
c17_pref_con_gd_new_preference (p: Option<PreferenceName>, q: ConGD) { (PrefConGD::new_preference(p, q)).d() } { node("PrefConGD.Preference", [p.d(), q.d()]) }
c17_preference_gd_from_gd (p: GoalDefinition) { (PreferenceGD::from_gd(p)).d() } { node("PreferenceGD.Goal", [p.d()]) }
c17_preference_gd_of_goal (p: GoalDefinition) { (<PreferenceGD as From<GoalDefinition>>::from(p)).d() } { node("PreferenceGD.Goal", [p.d()]) }
c17_preference_gd_from_preference (p: Preference) { (PreferenceGD::from_preference(p)).d() } { node("PreferenceGD.Preference", [p.d()]) }
c17_preference_gd_of_preference (p: Preference) { (<PreferenceGD as From<Preference>>::from(p)).d() } { node("PreferenceGD.Preference", [p.d()]) }
c17_pref_timed_gd_new_required (p: TimedGD) { (PrefTimedGD::new_required(p)).d() } { node("PrefTimedGD.Required", [p.d()]) }
c17_pref_timed_gd_of_required (p: TimedGD) { (<PrefTimedGD as From<TimedGD>>::from(p)).d() } { node("PrefTimedGD.Required", [p.d()]) }
c17_pref_timed_gd_new_preference (p: Option<PreferenceName>, q: TimedGD) { (PrefTimedGD::new_preference(p, q)).d() } { node("PrefTimedGD.Preference", [p.d(), q.d()]) }
c17_pref_timed_gd_of_preference (p: Option<PreferenceName>, q: TimedGD) { (<PrefTimedGD as From<(Option<PreferenceName>,TimedGD)>>::from((p, q))).d() } { node("PrefTimedGD.Preference", [p.d(), q.d()]) }
c17_simple_duration_constraint_new_op (p: DOp, q: DurationValue) { (SimpleDurationConstraint::new_op(p, q)).d() } { node("SimpleDurationConstraint.Op", [p.d(), q.d()]) }
c17_simple_duration_constraint_of_op (p: DOp, q: DurationValue) { (<SimpleDurationConstraint as From<(DOp,DurationValue)>>::from((p, q))).d() } { node("SimpleDurationConstraint.Op", [p.d(), q.d()]) }
c17_simple_duration_constraint_new_at (p: TimeSpecifier, q: SimpleDurationConstraint) { (SimpleDurationConstraint::new_at(p, q)).d() } { node("SimpleDurationConstraint.At", [p.d(), q.d()]) }
c17_simple_duration_constraint_of_at (p: TimeSpecifier, q: SimpleDurationConstraint) { (<SimpleDurationConstraint as From<(TimeSpecifier,SimpleDurationConstraint)>>::from((p, q))).d() } { node("SimpleDurationConstraint.At", [p.d(), q.d()]) }
c17_structure_def_new_action (p: ActionDefinition) { (StructureDef::new_action(p)).d() } { node("StructureDef.Action", [p.d()]) }
c17_structure_def_of_action (p: ActionDefinition) { (<StructureDef as From<ActionDefinition>>::from(p)).d() } { node("StructureDef.Action", [p.d()]) }
c17_structure_def_new_durative_action (p: DurativeActionDefinition) { (StructureDef::new_durative_action(p)).d() } { node("StructureDef.DurativeAction", [p.d()]) }
c17_structure_def_of_durative_action (p: DurativeActionDefinition) { (<StructureDef as From<DurativeActionDefinition>>::from(p)).d() } { node("StructureDef.DurativeAction", [p.d()]) }
c17_structure_def_new_derived (p: DerivedPredicate) { (StructureDef::new_derived(p)).d() } { node("StructureDef.Derived", [p.d()]) }
c17_structure_def_of_derived (p: DerivedPredicate) { (<StructureDef as From<DerivedPredicate>>::from(p)).d() } { node("StructureDef.Derived", [p.d()]) }
c17_term_new_name (p: Name) { (Term::new_name(p)).d() } { node("Term.Name", [p.d()]) }
c17_term_of_name (p: Name) { (<Term as From<Name>>::from(p)).d() } { node("Term.Name", [p.d()]) }
c17_term_new_variable (p: Variable) { (Term::new_variable(p)).d() } { node("Term.Variable", [p.d()]) }
c17_term_of_variable (p: Variable) { (<Term as From<Variable>>::from(p)).d() } { node("Term.Variable", [p.d()]) }
c17_term_new_function (p: FunctionTerm) { (Term::new_function(p)).d() } { node("Term.Function", [p.d()]) }
c17_term_of_function (p: FunctionTerm) { (<Term as From<FunctionTerm>>::from(p)).d() } { node("Term.Function", [p.d()]) }
c17_timed_effect_new_conditional (p: TimeSpecifier, q: ConditionalEffect) { (TimedEffect::new_conditional(p, q)).d() } { node("TimedEffect.Conditional", [p.d(), q.d()]) }
c17_timed_effect_of_conditional (p: TimeSpecifier, q: ConditionalEffect) { (<TimedEffect as From<(TimeSpecifier,ConditionalEffect)>>::from((p, q))).d() } { node("TimedEffect.Conditional", [p.d(), q.d()]) }
c17_timed_effect_new_fluent (p: TimeSpecifier, q: FAssignDa) { (TimedEffect::new_fluent(p, q)).d() } { node("TimedEffect.NumericFluent", [p.d(), q.d()]) }
c17_timed_effect_of_numeric_fluent (p: TimeSpecifier, q: FAssignDa) { (<TimedEffect as From<(TimeSpecifier,FAssignDa)>>::from((p, q))).d() } { node("TimedEffect.NumericFluent", [p.d(), q.d()]) }
c17_timed_effect_new_continuous (p: AssignOpT, q: FHead, r: FExpT) { (TimedEffect::new_continuous(p, q, r)).d() } { node("TimedEffect.ContinuousEffect", [p.d(), q.d(), r.d()]) }
c17_timed_effect_of_continuous_effect (p: AssignOpT, q: FHead, r: FExpT) { (<TimedEffect as From<(AssignOpT,FHead,FExpT)>>::from((p, q, r))).d() } { node("TimedEffect.ContinuousEffect", [p.d(), q.d(), r.d()]) }
c17_timed_gd_new_at (p: TimeSpecifier, q: GoalDefinition) { (TimedGD::new_at(p, q)).d() } { node("TimedGD.At", [p.d(), q.d()]) }
c17_timed_gd_of_at (p: TimeSpecifier, q: GoalDefinition) { (<TimedGD as From<(TimeSpecifier,GoalDefinition)>>::from((p, q))).d() } { node("TimedGD.At", [p.d(), q.d()]) }
c17_timed_gd_new_over (p: Interval, q: GoalDefinition) { (TimedGD::new_over(p, q)).d() } { node("TimedGD.Over", [p.d(), q.d()]) }
c17_timed_gd_of_over (p: Interval, q: GoalDefinition) { (<TimedGD as From<(Interval,GoalDefinition)>>::from((p, q))).d() } { node("TimedGD.Over", [p.d(), q.d()]) }
c17_literal_new (p: AtomicFormula<Term>) { (<Literal<Term>>::new(p)).d() } { node("Literal.AtomicFormula", [p.d()]) }
c17_literal_of_atomic_formula (p: AtomicFormula<Term>) { (<Literal<Term> as From<AtomicFormula<Term>>>::from(p)).d() } { node("Literal.AtomicFormula", [p.d()]) }
c17_literal_new_not (p: AtomicFormula<Term>) { (<Literal<Term>>::new_not(p)).d() } { node("Literal.NotAtomicFormula", [p.d()]) }
c17_atomic_formula_of_equality (p: EqualityAtomicFormula<Term>) { (<AtomicFormula<Term> as From<EqualityAtomicFormula<Term>>>::from(p)).d() } { node("AtomicFormula.Equality", [p.d()]) }
c17_atomic_formula_of_predicate (p: PredicateAtomicFormula<Term>) { (<AtomicFormula<Term> as From<PredicateAtomicFormula<Term>>>::from(p)).d() } { node("AtomicFormula.Predicate", [p.d()]) }
c17_type_of_exactly (p: PrimitiveType) { (<Type as From<PrimitiveType>>::from(p)).d() } { node("Type.Exactly", [p.d()]) }
c17_type_of_either_of (p: Vec<PrimitiveType>) { (<Type as From<Vec<PrimitiveType>>>::from(p)).d() } { node("Type.EitherOf", [p.d()]) }
c17_type_collected (p: Vec<PrimitiveType>) { (p.into_iter().collect::<Type>()).d() } { node("Type.EitherOf", [p.d()]) }
c17_action_definition_new (p: ActionSymbol, q: TypedVariables, r: PreconditionGoalDefinitions, s: Option<Effects>) { (ActionDefinition::new(p, q, r, s)).d() } { node("ActionDefinition", [p.d(), q.d(), r.d(), s.d()]) }
c17_action_definition_symbol (p: ActionSymbol, q: TypedVariables, r: PreconditionGoalDefinitions, s: Option<Effects>) { let x = ActionDefinition::new(p, q, r, s); x.symbol().d() } { p.d() }
c17_action_definition_parameters (p: ActionSymbol, q: TypedVariables, r: PreconditionGoalDefinitions, s: Option<Effects>) { let x = ActionDefinition::new(p, q, r, s); x.parameters().d() } { q.d() }
c17_action_definition_precondition (p: ActionSymbol, q: TypedVariables, r: PreconditionGoalDefinitions, s: Option<Effects>) { let x = ActionDefinition::new(p, q, r, s); x.precondition().d() } { r.d() }
c17_action_definition_effect (p: ActionSymbol, q: TypedVariables, r: PreconditionGoalDefinitions, s: Option<Effects>) { let x = ActionDefinition::new(p, q, r, s); x.effect().d() } { s.d() }
c17_durative_action_definition_new (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { (DurativeActionDefinition::new(p, q, r, s, t)).d() } { node("DurativeActionDefinition", [p.d(), q.d(), r.d(), s.d(), t.d()]) }
c17_durative_action_definition_symbol (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); x.symbol().d() } { p.d() }
c17_durative_action_definition_parameters (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); x.parameters().d() } { q.d() }
c17_durative_action_definition_duration (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); x.duration().d() } { r.d() }
c17_durative_action_definition_condition (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); x.condition().d() } { s.d() }
c17_durative_action_definition_effect (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); x.effect().d() } { t.d() }
c17_equality_atomic_formula_new (p: Term, q: Term) { (<EqualityAtomicFormula<Term>>::new(p, q)).d() } { node("EqualityAtomicFormula", [p.d(), q.d()]) }
c17_equality_atomic_formula_from_parts (p: Term, q: Term) { (<EqualityAtomicFormula<Term> as From<(Term,Term)>>::from((p, q))).d() } { node("EqualityAtomicFormula", [p.d(), q.d()]) }
c17_equality_atomic_formula_first (p: Term, q: Term) { let x = <EqualityAtomicFormula<Term>>::new(p, q); x.first().d() } { p.d() }
c17_equality_atomic_formula_second (p: Term, q: Term) { let x = <EqualityAtomicFormula<Term>>::new(p, q); x.second().d() } { q.d() }
c17_predicate_atomic_formula_new (p: Predicate, q: Vec<Term>) { (<PredicateAtomicFormula<Term>>::new(p, q)).d() } { node("PredicateAtomicFormula", [p.d(), q.d()]) }
c17_predicate_atomic_formula_from_parts (p: Predicate, q: Vec<Term>) { (<PredicateAtomicFormula<Term> as From<(Predicate,Vec<Term>)>>::from((p, q))).d() } { node("PredicateAtomicFormula", [p.d(), q.d()]) }
c17_predicate_atomic_formula_predicate (p: Predicate, q: Vec<Term>) { let x = <PredicateAtomicFormula<Term>>::new(p, q); x.predicate().d() } { p.d() }
c17_predicate_atomic_formula_values (p: Predicate, q: Vec<Term>) { let x = <PredicateAtomicFormula<Term>>::new(p, q); x.values().d() } { q.d() }
c17_atomic_formula_skeleton_new (p: Predicate, q: TypedVariables) { (AtomicFormulaSkeleton::new(p, q)).d() } { node("AtomicFormulaSkeleton", [p.d(), q.d()]) }
c17_atomic_formula_skeleton_from_parts (p: Predicate, q: TypedVariables) { (<AtomicFormulaSkeleton as From<(Predicate,TypedVariables)>>::from((p, q))).d() } { node("AtomicFormulaSkeleton", [p.d(), q.d()]) }
c17_atomic_formula_skeleton_predicate (p: Predicate, q: TypedVariables) { let x = AtomicFormulaSkeleton::new(p, q); x.predicate().d() } { p.d() }
c17_atomic_formula_skeleton_variables (p: Predicate, q: TypedVariables) { let x = AtomicFormulaSkeleton::new(p, q); x.variables().d() } { q.d() }
c17_atomic_function_skeleton_new (p: FunctionSymbol, q: TypedVariables) { (AtomicFunctionSkeleton::new(p, q)).d() } { node("AtomicFunctionSkeleton", [p.d(), q.d()]) }
c17_atomic_function_skeleton_from_parts (p: FunctionSymbol, q: TypedVariables) { (<AtomicFunctionSkeleton as From<(FunctionSymbol,TypedVariables)>>::from((p, q))).d() } { node("AtomicFunctionSkeleton", [p.d(), q.d()]) }
c17_atomic_function_skeleton_symbol (p: FunctionSymbol, q: TypedVariables) { let x = AtomicFunctionSkeleton::new(p, q); x.symbol().d() } { p.d() }
c17_atomic_function_skeleton_variables (p: FunctionSymbol, q: TypedVariables) { let x = AtomicFunctionSkeleton::new(p, q); x.variables().d() } { q.d() }
c17_basic_function_term_new (p: FunctionSymbol, q: Vec<Name>) { (BasicFunctionTerm::new(p, q)).d() } { node("BasicFunctionTerm", [p.d(), q.d()]) }
c17_basic_function_term_symbol (p: FunctionSymbol, q: Vec<Name>) { let x = BasicFunctionTerm::new(p, q); x.symbol().d() } { p.d() }
c17_basic_function_term_names (p: FunctionSymbol, q: Vec<Name>) { let x = BasicFunctionTerm::new(p, q); x.names().d() } { q.d() }
c17_function_term_new (p: FunctionSymbol, q: Vec<Term>) { (FunctionTerm::new(p, q)).d() } { node("FunctionTerm", [p.d(), q.d()]) }
c17_function_term_symbol (p: FunctionSymbol, q: Vec<Term>) { let x = FunctionTerm::new(p, q); x.symbol().d() } { p.d() }
c17_function_term_terms (p: FunctionSymbol, q: Vec<Term>) { let x = FunctionTerm::new(p, q); x.terms().d() } { q.d() }
c17_forall_ceffect_new (p: TypedVariables, q: Effects) { (ForallCEffect::new(p, q)).d() } { node("ForallCEffect", [p.d(), q.d()]) }
c17_forall_ceffect_from_parts (p: TypedVariables, q: Effects) { (<ForallCEffect as From<(TypedVariables,Effects)>>::from((p, q))).d() } { node("ForallCEffect", [p.d(), q.d()]) }
c17_forall_ceffect_variables (p: TypedVariables, q: Effects) { let x = ForallCEffect::new(p, q); x.variables.d() } { p.d() }
c17_forall_ceffect_effects (p: TypedVariables, q: Effects) { let x = ForallCEffect::new(p, q); x.effects.d() } { q.d() }
c17_when_ceffect_new (p: GoalDefinition, q: ConditionalEffect) { (WhenCEffect::new(p, q)).d() } { node("WhenCEffect", [p.d(), q.d()]) }
c17_when_ceffect_from_parts (p: GoalDefinition, q: ConditionalEffect) { (<WhenCEffect as From<(GoalDefinition,ConditionalEffect)>>::from((p, q))).d() } { node("WhenCEffect", [p.d(), q.d()]) }
c17_when_ceffect_condition (p: GoalDefinition, q: ConditionalEffect) { let x = WhenCEffect::new(p, q); x.condition.d() } { p.d() }
c17_when_ceffect_effect (p: GoalDefinition, q: ConditionalEffect) { let x = WhenCEffect::new(p, q); x.effect.d() } { q.d() }
c17_derived_predicate_new (p: AtomicFormulaSkeleton, q: GoalDefinition) { (DerivedPredicate::new(p, q)).d() } { node("DerivedPredicate", [p.d(), q.d()]) }
c17_derived_predicate_from_parts (p: AtomicFormulaSkeleton, q: GoalDefinition) { (<DerivedPredicate as From<(AtomicFormulaSkeleton,GoalDefinition)>>::from((p, q))).d() } { node("DerivedPredicate", [p.d(), q.d()]) }
c17_derived_predicate_predicate (p: AtomicFormulaSkeleton, q: GoalDefinition) { let x = DerivedPredicate::new(p, q); x.predicate().d() } { p.d() }
c17_derived_predicate_expression (p: AtomicFormulaSkeleton, q: GoalDefinition) { let x = DerivedPredicate::new(p, q); x.expression().d() } { q.d() }
c17_fassign_da_new (p: AssignOp, q: FHead, r: FExpDa) { (FAssignDa::new(p, q, r)).d() } { node("FAssignDa", [p.d(), q.d(), r.d()]) }
c17_fassign_da_from_parts (p: AssignOp, q: FHead, r: FExpDa) { (<FAssignDa as From<(AssignOp,FHead,FExpDa)>>::from((p, q, r))).d() } { node("FAssignDa", [p.d(), q.d(), r.d()]) }
c17_fassign_da_operation (p: AssignOp, q: FHead, r: FExpDa) { let x = FAssignDa::new(p, q, r); x.operation().d() } { p.d() }
c17_fassign_da_function (p: AssignOp, q: FHead, r: FExpDa) { let x = FAssignDa::new(p, q, r); x.function().d() } { q.d() }
c17_fassign_da_function_expr (p: AssignOp, q: FHead, r: FExpDa) { let x = FAssignDa::new(p, q, r); x.function_expr().d() } { r.d() }
c17_fcomp_new (p: BinaryComp, q: FExp, r: FExp) { (FComp::new(p, q, r)).d() } { node("FComp", [p.d(), q.d(), r.d()]) }
c17_fcomp_from_parts (p: BinaryComp, q: FExp, r: FExp) { (<FComp as From<(BinaryComp,FExp,FExp)>>::from((p, q, r))).d() } { node("FComp", [p.d(), q.d(), r.d()]) }
c17_fcomp_comparison (p: BinaryComp, q: FExp, r: FExp) { let x = FComp::new(p, q, r); x.comparison().d() } { p.d() }
c17_fcomp_first (p: BinaryComp, q: FExp, r: FExp) { let x = FComp::new(p, q, r); x.first().d() } { q.d() }
c17_fcomp_second (p: BinaryComp, q: FExp, r: FExp) { let x = FComp::new(p, q, r); x.second().d() } { r.d() }
c17_metric_spec_new (p: Optimization, q: MetricFExp) { (MetricSpec::new(p, q)).d() } { node("MetricSpec", [p.d(), q.d()]) }
c17_metric_spec_optimization (p: Optimization, q: MetricFExp) { let x = MetricSpec::new(p, q); x.optimization().d() } { p.d() }
c17_metric_spec_expression (p: Optimization, q: MetricFExp) { let x = MetricSpec::new(p, q); x.expression().d() } { q.d() }
c17_preference_new (p: Option<PreferenceName>, q: GoalDefinition) { (Preference::new(p, q)).d() } { node("Preference", [p.d(), q.d()]) }
c17_preference_from_parts (p: Option<PreferenceName>, q: GoalDefinition) { (<Preference as From<(Option<PreferenceName>,GoalDefinition)>>::from((p, q))).d() } { node("Preference", [p.d(), q.d()]) }
c17_preference_name (p: Option<PreferenceName>, q: GoalDefinition) { let x = Preference::new(p, q); x.name().d() } { p.d() }
c17_preference_goal (p: Option<PreferenceName>, q: GoalDefinition) { let x = Preference::new(p, q); x.goal().d() } { q.d() }
c17_typed_new (p: Name, q: Type) { (<Typed<Name>>::new(p, q)).d() } { node("Typed", [p.d(), q.d()]) }
c17_typed_value (p: Name, q: Type) { let x = <Typed<Name>>::new(p, q); x.value().d() } { p.d() }
c17_typed_type_ (p: Name, q: Type) { let x = <Typed<Name>>::new(p, q); x.type_().d() } { q.d() }
c17_function_typed_new (p: Name, q: FunctionType) { (<FunctionTyped<Name>>::new(p, q)).d() } { node("FunctionTyped", [p.d(), q.d()]) }
c17_function_typed_value_ref (p: Name, q: FunctionType) { let x = <FunctionTyped<Name>>::new(p, q); x.value_ref().d() } { p.d() }
c17_function_typed_type_ref (p: Name, q: FunctionType) { let x = <FunctionTyped<Name>>::new(p, q); x.type_ref().d() } { q.d() }
c17_length_spec_new (p: Option<u64>, q: Option<u64>) { (LengthSpec::new(p, q)).d() } { node("LengthSpec", [p.d(), q.d()]) }
c17_length_spec_serial (p: Option<u64>, q: Option<u64>) { let x = LengthSpec::new(p, q); x.serial().d() } { p.d() }
c17_length_spec_parallel (p: Option<u64>, q: Option<u64>) { let x = LengthSpec::new(p, q); x.parallel().d() } { q.d() }
c17_problem_new (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { (Problem::new(p, q, r, s, t, u, v, w, z)).d() } { node("Problem", [p.d(), q.d(), r.d(), s.d(), t.d(), u.d(), v.d(), w.d(), z.d()]) }
c17_problem_name (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.name().d() } { p.d() }
c17_problem_domain (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.domain().d() } { q.d() }
c17_problem_requirements (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.requirements().d() } { r.d() }
c17_problem_objects (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.objects().d() } { s.d() }
c17_problem_init (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.init().d() } { t.d() }
c17_problem_goals (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.goals().d() } { u.d() }
c17_problem_constraints (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.constraints().d() } { v.d() }
c17_problem_metric_spec (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.metric_spec().d() } { w.d() }
c17_problem_length_spec (p: Name, q: Name, r: Requirements, s: Objects, t: InitElements, u: GoalDef, v: ProblemConstraintsDef, w: Option<MetricSpec>, z: Option<LengthSpec>) { let x = Problem::new(p, q, r, s, t, u, v, w, z); x.length_spec().d() } { z.d() }
c17_constants_new (p: TypedNames) { Constants::new(p).d() } { p.d() }
c17_constants_from (p: TypedNames) { <Constants as From<TypedNames>>::from(p).d() } { p.d() }
c17_constants_deref (p: TypedNames) { let x = Constants::new(p); (&*x).d() } { p.d() }
c17_constants_collected (p: Vec<Typed<Name>>) { p.into_iter().collect::<Constants>().d() } { p.d() }
c17_types_new (p: TypedNames) { Types::new(p).d() } { p.d() }
c17_types_from (p: TypedNames) { <Types as From<TypedNames>>::from(p).d() } { p.d() }
c17_types_values (p: TypedNames) { Types::new(p).values().d() } { p.d() }
c17_types_deref (p: TypedNames) { let x = Types::new(p); (&*x).d() } { p.d() }
c17_objects_new (p: TypedNames) { Objects::new(p).d() } { p.d() }
c17_objects_from (p: TypedNames) { <Objects as From<TypedNames>>::from(p).d() } { p.d() }
c17_objects_values (p: TypedNames) { Objects::new(p).values().d() } { p.d() }
c17_objects_deref (p: TypedNames) { let x = Objects::new(p); (&*x).d() } { p.d() }
c17_objects_collected (p: Vec<Typed<Name>>) { p.into_iter().collect::<Objects>().d() } { p.d() }
c17_functions_new (p: FunctionTypedList<AtomicFunctionSkeleton>) { Functions::new(p).d() } { p.d() }
c17_functions_from (p: FunctionTypedList<AtomicFunctionSkeleton>) { <Functions as From<FunctionTypedList<AtomicFunctionSkeleton>>>::from(p).d() } { p.d() }
c17_functions_values (p: FunctionTypedList<AtomicFunctionSkeleton>) { Functions::new(p).values().d() } { p.d() }
c17_functions_deref (p: FunctionTypedList<AtomicFunctionSkeleton>) { let x = Functions::new(p); (&*x).d() } { p.d() }
c17_functions_collected (p: Vec<FunctionTyped<AtomicFunctionSkeleton>>) { p.into_iter().collect::<Functions>().d() } { p.d() }
c17_domain_constraints_def_new (p: ConGD) { DomainConstraintsDef::new(p).d() } { p.d() }
c17_domain_constraints_def_from (p: ConGD) { <DomainConstraintsDef as From<ConGD>>::from(p).d() } { p.d() }
c17_domain_constraints_def_value (p: ConGD) { DomainConstraintsDef::new(p).value().d() } { p.d() }
c17_domain_constraints_def_deref (p: ConGD) { let x = DomainConstraintsDef::new(p); (&*x).d() } { p.d() }
c17_goal_def_new (p: PreconditionGoalDefinitions) { GoalDef::new(p).d() } { p.d() }
c17_goal_def_from (p: PreconditionGoalDefinitions) { <GoalDef as From<PreconditionGoalDefinitions>>::from(p).d() } { p.d() }
c17_goal_def_value (p: PreconditionGoalDefinitions) { GoalDef::new(p).value().d() } { p.d() }
c17_goal_def_deref (p: PreconditionGoalDefinitions) { let x = GoalDef::new(p); (&*x).d() } { p.d() }
c17_goal_def_collected (p: Vec<PreconditionGoalDefinition>) { p.into_iter().collect::<GoalDef>().d() } { p.d() }
c17_problem_constraints_def_new (p: PrefConGDs) { ProblemConstraintsDef::new(p).d() } { p.d() }
c17_problem_constraints_def_from (p: PrefConGDs) { <ProblemConstraintsDef as From<PrefConGDs>>::from(p).d() } { p.d() }
c17_problem_constraints_def_value (p: PrefConGDs) { ProblemConstraintsDef::new(p).value().d() } { p.d() }
c17_problem_constraints_def_deref (p: PrefConGDs) { let x = ProblemConstraintsDef::new(p); (&*x).d() } { p.d() }
c17_function_type_new (p: Type) { FunctionType::new(p).d() } { p.d() }
c17_function_type_from (p: Type) { <FunctionType as From<Type>>::from(p).d() } { p.d() }
c17_function_type_deref (p: Type) { let x = FunctionType::new(p); (&*x).d() } { p.d() }
c17_timeless_new (p: Vec<NameLiteral>) { Timeless::new(p).d() } { p.d() }
c17_timeless_values (p: Vec<NameLiteral>) { Timeless::new(p).values().d() } { p.d() }
c17_timeless_deref (p: Vec<NameLiteral>) { let x = Timeless::new(p); (&*x).d() } { p.d() }
c17_timeless_collected (p: Vec<NameLiteral>) { p.into_iter().collect::<Timeless>().d() } { p.d() }
c17_structure_defs_new (p: Vec<StructureDef>) { StructureDefs::new(p).d() } { p.d() }
c17_structure_defs_from (p: Vec<StructureDef>) { <StructureDefs as From<Vec<StructureDef>>>::from(p).d() } { p.d() }
c17_structure_defs_values (p: Vec<StructureDef>) { StructureDefs::new(p).values().d() } { p.d() }
c17_structure_defs_deref (p: Vec<StructureDef>) { let x = StructureDefs::new(p); (&*x).d() } { p.d() }
c17_structure_defs_collected (p: Vec<StructureDef>) { p.into_iter().collect::<StructureDefs>().d() } { p.d() }
c17_init_elements_new (p: Vec<InitElement>) { InitElements::new(p).d() } { p.d() }
c17_init_elements_values (p: Vec<InitElement>) { InitElements::new(p).values().d() } { p.d() }
c17_init_elements_deref (p: Vec<InitElement>) { let x = InitElements::new(p); (&*x).d() } { p.d() }
c17_init_elements_collected (p: Vec<InitElement>) { p.into_iter().collect::<InitElements>().d() } { p.d() }
c17_predicate_definitions_new (p: Vec<AtomicFormulaSkeleton>) { PredicateDefinitions::new(p).d() } { p.d() }
c17_predicate_definitions_from (p: Vec<AtomicFormulaSkeleton>) { <PredicateDefinitions as From<Vec<AtomicFormulaSkeleton>>>::from(p).d() } { p.d() }
c17_predicate_definitions_values (p: Vec<AtomicFormulaSkeleton>) { PredicateDefinitions::new(p).values().d() } { p.d() }
c17_predicate_definitions_deref (p: Vec<AtomicFormulaSkeleton>) { let x = PredicateDefinitions::new(p); (&*x).d() } { p.d() }
c17_predicate_definitions_collected (p: Vec<AtomicFormulaSkeleton>) { p.into_iter().collect::<PredicateDefinitions>().d() } { p.d() }
c17_requirements_new (p: Vec<Requirement>) { Requirements::new(p).d() } { p.d() }
c17_requirements_from (p: Vec<Requirement>) { <Requirements as From<Vec<Requirement>>>::from(p).d() } { p.d() }
c17_requirements_deref (p: Vec<Requirement>) { let x = Requirements::new(p); (&*x).d() } { p.d() }
c17_requirements_collected (p: Vec<Requirement>) { p.into_iter().collect::<Requirements>().d() } { p.d() }
c17_effects_new_and (p: Vec<CEffect>) { Effects::new_and(p).d() } { p.d() }
c17_effects_from (p: Vec<CEffect>) { <Effects as From<Vec<CEffect>>>::from(p).d() } { p.d() }
c17_effects_deref (p: Vec<CEffect>) { let x = Effects::new_and(p); (&*x).d() } { p.d() }
c17_effects_as_ref (p: Vec<CEffect>) { let x = Effects::new_and(p); AsRef::<[CEffect]>::as_ref(&x).d() } { p.d() }
c19_effects_iter (p: Vec<CEffect>) { let x = Effects::new_and(p); T::List(x.iter().map(|y| y.d()).collect()) } { p.d() }
c17_effects_collected (p: Vec<CEffect>) { p.into_iter().collect::<Effects>().d() } { p.d() }
c19_effects_items (p: Vec<CEffect>) { let x = Effects::new_and(p); x.into_iter().collect::<Vec<_>>().d() } { p.d() }
c17_precondition_goal_definitions_new (p: Vec<PreconditionGoalDefinition>) { PreconditionGoalDefinitions::new(p).d() } { p.d() }
c17_precondition_goal_definitions_deref (p: Vec<PreconditionGoalDefinition>) { let x = PreconditionGoalDefinitions::new(p); (&*x).d() } { p.d() }
c17_precondition_goal_definitions_as_ref (p: Vec<PreconditionGoalDefinition>) { let x = PreconditionGoalDefinitions::new(p); AsRef::<[PreconditionGoalDefinition]>::as_ref(&x).d() } { p.d() }
c19_precondition_goal_definitions_iter (p: Vec<PreconditionGoalDefinition>) { let x = PreconditionGoalDefinitions::new(p); T::List(x.iter().map(|y| y.d()).collect()) } { p.d() }
c17_precondition_goal_definitions_collected (p: Vec<PreconditionGoalDefinition>) { p.into_iter().collect::<PreconditionGoalDefinitions>().d() } { p.d() }
c19_precondition_goal_definitions_items (p: Vec<PreconditionGoalDefinition>) { let x = PreconditionGoalDefinitions::new(p); x.into_iter().collect::<Vec<_>>().d() } { p.d() }
c17_precondition_goal_definitions_to_vec (p: Vec<PreconditionGoalDefinition>) { let x = PreconditionGoalDefinitions::new(p); Vec::<PreconditionGoalDefinition>::from(x).d() } { p.d() }
c17_pref_con_gds_new (p: Vec<PrefConGD>) { PrefConGDs::new(p).d() } { p.d() }
c17_pref_con_gds_from (p: Vec<PrefConGD>) { <PrefConGDs as From<Vec<PrefConGD>>>::from(p).d() } { p.d() }
c17_pref_con_gds_deref (p: Vec<PrefConGD>) { let x = PrefConGDs::new(p); (&*x).d() } { p.d() }
c17_pref_con_gds_as_ref (p: Vec<PrefConGD>) { let x = PrefConGDs::new(p); AsRef::<[PrefConGD]>::as_ref(&x).d() } { p.d() }
c19_pref_con_gds_iter (p: Vec<PrefConGD>) { let x = PrefConGDs::new(p); T::List(x.iter().map(|y| y.d()).collect()) } { p.d() }
c17_pref_con_gds_collected (p: Vec<PrefConGD>) { p.into_iter().collect::<PrefConGDs>().d() } { p.d() }
c19_pref_con_gds_items (p: Vec<PrefConGD>) { let x = PrefConGDs::new(p); x.into_iter().collect::<Vec<_>>().d() } { p.d() }
c17_pref_con_gds_to_vec (p: Vec<PrefConGD>) { let x = PrefConGDs::new(p); Vec::<PrefConGD>::from(x).d() } { p.d() }
c17_typed_list_new (p: Vec<Typed<Name>>) { <TypedList<Name>>::new(p).d() } { p.d() }
c17_typed_list_from (p: Vec<Typed<Name>>) { <TypedList<Name> as From<Vec<Typed<Name>>>>::from(p).d() } { p.d() }
c17_typed_list_value (p: Vec<Typed<Name>>) { <TypedList<Name>>::new(p).value().d() } { p.d() }
c17_typed_list_deref (p: Vec<Typed<Name>>) { let x = <TypedList<Name>>::new(p); (&*x).d() } { p.d() }
c17_typed_list_collected (p: Vec<Typed<Name>>) { p.into_iter().collect::<TypedList<Name>>().d() } { p.d() }
c19_typed_list_items (p: Vec<Typed<Name>>) { let x = <TypedList<Name>>::new(p); x.into_iter().collect::<Vec<_>>().d() } { p.d() }
c17_function_typed_list_new (p: Vec<FunctionTyped<Name>>) { <FunctionTypedList<Name>>::new(p).d() } { p.d() }
c17_function_typed_list_from (p: Vec<FunctionTyped<Name>>) { <FunctionTypedList<Name> as From<Vec<FunctionTyped<Name>>>>::from(p).d() } { p.d() }
c17_function_typed_list_values (p: Vec<FunctionTyped<Name>>) { <FunctionTypedList<Name>>::new(p).values().d() } { p.d() }
c17_function_typed_list_deref (p: Vec<FunctionTyped<Name>>) { let x = <FunctionTypedList<Name>>::new(p); (&*x).d() } { p.d() }
c17_function_typed_list_collected (p: Vec<FunctionTyped<Name>>) { p.into_iter().collect::<FunctionTypedList<Name>>().d() } { p.d() }
c17_action_symbol_new (p: Name) { ActionSymbol::new(p).d() } { p.d() }
c17_action_symbol_from_any_name (p: Name) { <ActionSymbol as From<Name>>::from(p).d() } { p.d() }
c17_action_symbol_from_any_str (p: &'static str) { <ActionSymbol as From<&str>>::from(p).d() } { text(p) }
c17_action_symbol_from_any_string (p: String) { <ActionSymbol as From<String>>::from(p.clone()).d() } { text(&p) }
c17_action_symbol_from_str (p: &'static str) { ActionSymbol::from_str(p).d() } { text(p) }
c17_action_symbol_from_name (p: Name) { ActionSymbol::from_name(p).d() } { p.d() }
c17_action_symbol_deref (p: Name) { let x = ActionSymbol::new(p); (&*x).d() } { p.d() }
c17_action_symbol_as_name (p: Name) { let x = ActionSymbol::new(p); AsRef::<Name>::as_ref(&x).d() } { p.d() }
c17_action_symbol_as_str (p: Name) { let x = ActionSymbol::new(p); text(AsRef::<str>::as_ref(&x)) } { text(&p) }
c17_durative_action_symbol_new (p: Name) { DurativeActionSymbol::new(p).d() } { p.d() }
c17_durative_action_symbol_from_any_name (p: Name) { <DurativeActionSymbol as From<Name>>::from(p).d() } { p.d() }
c17_durative_action_symbol_from_any_str (p: &'static str) { <DurativeActionSymbol as From<&str>>::from(p).d() } { text(p) }
c17_durative_action_symbol_from_any_string (p: String) { <DurativeActionSymbol as From<String>>::from(p.clone()).d() } { text(&p) }
c17_durative_action_symbol_from_str (p: &'static str) { DurativeActionSymbol::from_str(p).d() } { text(p) }
c17_durative_action_symbol_from_name (p: Name) { DurativeActionSymbol::from_name(p).d() } { p.d() }
c17_durative_action_symbol_deref (p: Name) { let x = DurativeActionSymbol::new(p); (&*x).d() } { p.d() }
c17_durative_action_symbol_as_name (p: Name) { let x = DurativeActionSymbol::new(p); AsRef::<Name>::as_ref(&x).d() } { p.d() }
c17_durative_action_symbol_as_str (p: Name) { let x = DurativeActionSymbol::new(p); text(AsRef::<str>::as_ref(&x)) } { text(&p) }
c17_function_symbol_new (p: Name) { FunctionSymbol::new(p).d() } { p.d() }
c17_function_symbol_from_any_name (p: Name) { <FunctionSymbol as From<Name>>::from(p).d() } { p.d() }
c17_function_symbol_from_any_str (p: &'static str) { <FunctionSymbol as From<&str>>::from(p).d() } { text(p) }
c17_function_symbol_from_any_string (p: String) { <FunctionSymbol as From<String>>::from(p.clone()).d() } { text(&p) }
c17_function_symbol_from_str (p: &'static str) { FunctionSymbol::from_str(p).d() } { text(p) }
c17_function_symbol_from_name (p: Name) { FunctionSymbol::from_name(p).d() } { p.d() }
c17_function_symbol_deref (p: Name) { let x = FunctionSymbol::new(p); (&*x).d() } { p.d() }
c17_function_symbol_as_name (p: Name) { let x = FunctionSymbol::new(p); AsRef::<Name>::as_ref(&x).d() } { p.d() }
c17_function_symbol_as_str (p: Name) { let x = FunctionSymbol::new(p); text(AsRef::<str>::as_ref(&x)) } { text(&p) }
c17_predicate_new (p: Name) { Predicate::new(p).d() } { p.d() }
c17_predicate_from_any_name (p: Name) { <Predicate as From<Name>>::from(p).d() } { p.d() }
c17_predicate_from_any_str (p: &'static str) { <Predicate as From<&str>>::from(p).d() } { text(p) }
c17_predicate_from_any_string (p: String) { <Predicate as From<String>>::from(p.clone()).d() } { text(&p) }
c17_predicate_from_str (p: &'static str) { Predicate::from_str(p).d() } { text(p) }
c17_predicate_from_name (p: Name) { Predicate::from_name(p).d() } { p.d() }
c17_predicate_deref (p: Name) { let x = Predicate::new(p); (&*x).d() } { p.d() }
c17_predicate_from_static (p: &'static str) { Predicate::from_static(p).d() } { text(p) }
c17_predicate_as_name (p: Name) { let x = Predicate::new(p); AsRef::<Name>::as_ref(&x).d() } { p.d() }
c17_predicate_as_str (p: Name) { let x = Predicate::new(p); text(AsRef::<str>::as_ref(&x)) } { text(&p) }
c17_preference_name_new (p: Name) { PreferenceName::new(p).d() } { p.d() }
c17_preference_name_from_any_name (p: Name) { <PreferenceName as From<Name>>::from(p).d() } { p.d() }
c17_preference_name_from_any_str (p: &'static str) { <PreferenceName as From<&str>>::from(p).d() } { text(p) }
c17_preference_name_from_any_string (p: String) { <PreferenceName as From<String>>::from(p.clone()).d() } { text(&p) }
c17_preference_name_from_str (p: &'static str) { PreferenceName::from_str(p).d() } { text(p) }
c17_preference_name_from_name (p: Name) { PreferenceName::from_name(p).d() } { p.d() }
c17_preference_name_deref (p: Name) { let x = PreferenceName::new(p); (&*x).d() } { p.d() }
c17_preference_name_from_static (p: &'static str) { PreferenceName::from_static(p).d() } { text(p) }
c17_variable_new (p: Name) { Variable::new(p).d() } { p.d() }
c17_variable_from_any_name (p: Name) { <Variable as From<Name>>::from(p).d() } { p.d() }
c17_variable_from_any_str (p: &'static str) { <Variable as From<&str>>::from(p).d() } { text(p) }
c17_variable_from_any_string (p: String) { <Variable as From<String>>::from(p.clone()).d() } { text(&p) }
c17_variable_from_str (p: &'static str) { Variable::from_str(p).d() } { text(p) }
c17_variable_from_name (p: Name) { Variable::from_name(p).d() } { p.d() }
c17_variable_deref (p: Name) { let x = Variable::new(p); (&*x).d() } { p.d() }
c17_variable_from_static (p: &'static str) { Variable::from_static(p).d() } { text(p) }
c17_variable_as_name (p: Name) { let x = Variable::new(p); AsRef::<Name>::as_ref(&x).d() } { p.d() }
c17_variable_as_str (p: Name) { let x = Variable::new(p); text(AsRef::<str>::as_ref(&x)) } { text(&p) }
c17_primitive_type_new (p: Name) { PrimitiveType::new(p).d() } { p.d() }
c17_primitive_type_from_any_name (p: Name) { <PrimitiveType as From<Name>>::from(p).d() } { p.d() }
c17_primitive_type_from_any_str (p: &'static str) { <PrimitiveType as From<&str>>::from(p).d() } { text(p) }
c17_primitive_type_from_any_string (p: String) { <PrimitiveType as From<String>>::from(p.clone()).d() } { text(&p) }
c17_primitive_type_deref (p: Name) { let x = PrimitiveType::new(p); text(&*x) } { text(&p) }
c17_primitive_type_as_str (p: Name) { let x = PrimitiveType::new(p); text(AsRef::<str>::as_ref(&x)) } { text(&p) }
c17_type_object () { Type::OBJECT.d() } { node("Type.Exactly", [text("object")]) }
c17_type_number () { Type::NUMBER.d() } { node("Type.Exactly", [text("number")]) }
c17_type_default () { Type::default().d() } { node("Type.Exactly", [text("object")]) }
c17_function_type_number () { FunctionType::NUMBER.d() } { node("Type.Exactly", [text("number")]) }
c17_function_type_default () { FunctionType::default().d() } { node("Type.Exactly", [text("number")]) }
c17_type_from_str (p: &'static str) { Type::from(p).d() } { node("Type.Exactly", [text(p)]) }
c17_function_type_from_str (p: &'static str) { <FunctionType as From<&str>>::from(p).d() } { node("Type.Exactly", [text(p)]) }
c17_type_from_strs (p: Vec<&'static str>) { Type::from(p).d() } { node("Type.EitherOf", [T::List(p.iter().map(|x| text(x)).collect())]) }
c17_function_type_from_strs (p: Vec<&'static str>) { <FunctionType as From<Vec<&str>>>::from(p).d() } { node("Type.EitherOf", [T::List(p.iter().map(|x| text(x)).collect())]) }
c17_type_collected_names (p: Vec<Name>) { p.into_iter().collect::<Type>().d() } { node("Type.EitherOf", [T::List(p.iter().map(|x| text(x)).collect())]) }
c17_function_type_inherent (p: Type) { FunctionType::from(p).d() } { p.d() }
c17_typed_object (p: Name) { Typed::new_object(p).d() } { node("Typed", [p.d(), node("Type.Exactly", [text("object")])]) }
c17_typed_from (p: Name) { Typed::from(p).d() } { node("Typed", [p.d(), node("Type.Exactly", [text("object")])]) }
c17_typed_deref (p: Name, q: Type) { let x = Typed::new(p, q); (&*x).d() } { p.d() }
c17_function_typed_number (p: Name) { FunctionTyped::new_number(p).d() } { node("FunctionTyped", [p.d(), node("Type.Exactly", [text("number")])]) }
c17_function_typed_from (p: Name) { FunctionTyped::from(p).d() } { node("FunctionTyped", [p.d(), node("Type.Exactly", [text("number")])]) }
c17_function_typed_from_type (p: Name, q: Type) { FunctionTyped::from_type(p, q).d() } { node("FunctionTyped", [p.d(), q.d()]) }
c17_function_typed_deref (p: Name, q: FunctionType) { let x = FunctionTyped::new(p, q); (&*x).d() } { p.d() }
c17_name_to_typed (p: Name, q: Type) { p.to_typed(q).d() } { node("Typed", [p.d(), q.d()]) }
c17_name_to_typed_str (p: Name, q: &'static str) { p.to_typed(q).d() } { node("Typed", [p.d(), node("Type.Exactly", [text(q)])]) }
c17_name_to_typed_either (p: Name, q: Vec<&'static str>) { p.to_typed_either(q).d() } { node("Typed", [p.d(), node("Type.EitherOf", [T::List(q.iter().map(|x| text(x)).collect())])]) }
c17_variable_to_typed (p: Variable, q: Type) { p.to_typed(q).d() } { node("Typed", [p.d(), q.d()]) }
c17_variable_to_typed_str (p: Variable, q: &'static str) { p.to_typed(q).d() } { node("Typed", [p.d(), node("Type.Exactly", [text(q)])]) }
c17_variable_to_typed_either (p: Variable, q: Vec<&'static str>) { p.to_typed_either(q).d() } { node("Typed", [p.d(), node("Type.EitherOf", [T::List(q.iter().map(|x| text(x)).collect())])]) }
c17_conditional_effect_from_item (p: PEffect) { ConditionalEffect::from(p).d() } { node("ConditionalEffect.Single", [p.d()]) }
c17_c_effect_new_forall (p: TypedVariables, q: Effects) { CEffect::new_forall(p, q).d() } { node("CEffect.Forall", [node("ForallCEffect", [p.d(), q.d()])]) }
c17_c_effect_new_when (p: GoalDefinition, q: ConditionalEffect) { CEffect::new_when(p, q).d() } { node("CEffect.When", [node("WhenCEffect", [p.d(), q.d()])]) }
c17_c_effect_into_effect (p: CEffect) { TryInto::<PEffect>::try_into(p).d() } { match p { CEffect::Effect(x) => node("ok", [x.d()]), _ => node("err", []) } }
c17_c_effect_into_forall (p: CEffect) { TryInto::<ForallCEffect>::try_into(p).d() } { match p { CEffect::Forall(x) => node("ok", [x.d()]), _ => node("err", []) } }
c17_c_effect_into_when (p: CEffect) { TryInto::<WhenCEffect>::try_into(p).d() } { match p { CEffect::When(x) => node("ok", [x.d()]), _ => node("err", []) } }
c17_gd_imply_tuple (p: GoalDefinition, q: GoalDefinition) { GoalDefinition::new_imply_tuple((p, q)).d() } { node("GoalDefinition.Imply", [p.d(), q.d()]) }
c17_gd_exists_tuple (p: TypedVariables, q: GoalDefinition) { GoalDefinition::new_exists_tuple((p, q)).d() } { node("GoalDefinition.Exists", [p.d(), q.d()]) }
c17_gd_forall_tuple (p: TypedVariables, q: GoalDefinition) { GoalDefinition::new_forall_tuple((p, q)).d() } { node("GoalDefinition.ForAll", [p.d(), q.d()]) }
c17_con_gd_from_domain (p: DomainConstraintsDef) { ConGD::from(p).d() } { p.d() }
c17_con_gd_default () { ConGD::default().d() } { node("ConGD.And", [T::List(Vec::new())]) }
c17_domain_constraints_default () { DomainConstraintsDef::default().d() } { node("ConGD.And", [T::List(Vec::new())]) }
c17_f_exp_t_default () { FExpT::default().d() } { node("FExpT.Now", []) }
c17_requirement_default () { Requirement::default().d() } { node("Requirement.Strips", []) }
c17_length_serial (p: u64) { LengthSpec::new_serial(p).d() } { node("LengthSpec", [node("some", [p.d()]), node("none", [])]) }
c17_length_parallel (p: u64) { LengthSpec::new_parallel(p).d() } { node("LengthSpec", [node("none", []), node("some", [p.d()])]) }
c17_f_exp_number_f32 (p: i32) { FExp::new_number(p).d() } { node("FExp.Number", [num(p as f32)]) }
c17_metric_number_f32 (p: i32) { MetricFExp::new_number(p).d() } { node("MetricFExp.Number", [num(p as f32)]) }
c17_duration_number (p: i32) { DurationValue::new_number(p).d() } { node("DurationValue.Number", [num(p as f32)]) }
c17_metric_multi (p: MultiOp, q: MetricFExp, r: Vec<MetricFExp>) { if r.is_empty() { b(true) } else { MetricFExp::new_multi_op(p, q, r).d() } } { if r.is_empty() { b(true) } else { node("MetricFExp.MultiOp", [p.d(), q.d(), r.d()]) } }
c17_duration_new_all (p: Vec<SimpleDurationConstraint>) { if p.is_empty() { b(true) } else { DurationConstraint::new_all(p).d() } } { if p.is_empty() { b(true) } else { node("DurationConstraint.All", [p.d()]) } }
c17_duration_collected (p: Vec<SimpleDurationConstraint>) { if p.is_empty() { b(true) } else { p.into_iter().collect::<DurationConstraint>().d() } } { if p.is_empty() { b(true) } else { node("DurationConstraint.All", [p.d()]) } }
c17_formula_equality (p: Term, q: Term) { <AtomicFormula<Term>>::new_equality(p, q).d() } { node("AtomicFormula.Equality", [node("EqualityAtomicFormula", [p.d(), q.d()])]) }
c17_formula_predicate (p: Predicate, q: Vec<Term>) { <AtomicFormula<Term>>::new_predicate(p, q).d() } { node("AtomicFormula.Predicate", [node("PredicateAtomicFormula", [p.d(), q.d()])]) }
c17_literal_is_negated (p: Literal<Term>) { b(p.is_negated()) } { b(matches!(p, Literal::NotAtomicFormula(_))) }
c17_preference_from_name (p: PreferenceName, q: GoalDefinition) { <Preference as From<(PreferenceName, GoalDefinition)>>::from((p, q)).d() } { node("Preference", [node("some", [p.d()]), q.d()]) }
c17_preference_from_goal (q: GoalDefinition) { <Preference as From<GoalDefinition>>::from(q).d() } { node("Preference", [node("none", []), q.d()]) }
c17_precondition_from_preference (p: Preference) { <PreconditionGoalDefinition as From<Preference>>::from(p).d() } { node("PreconditionGoalDefinition.Preference", [node("PreferenceGD.Preference", [p.d()])]) }
c17_precondition_and (p: Vec<PreconditionGoalDefinition>) { PreconditionGoalDefinition::new_and(p).d() } { p.d() }
c17_preconditions_preference (p: PreferenceGD) { PreconditionGoalDefinitions::new_preference(p).d() } { T::List(vec![node("PreconditionGoalDefinition.Preference", [p.d()])]) }
c17_preconditions_forall (p: TypedVariables, q: PreconditionGoalDefinitions) { PreconditionGoalDefinitions::new_forall(p, q).d() } { T::List(vec![node("PreconditionGoalDefinition.Forall", [p.d(), q.d()])]) }
c17_pref_con_gds_goal (p: ConGD) { PrefConGDs::new_goal(p).d() } { T::List(vec![node("PrefConGD.Goal", [p.d()])]) }
c17_pref_con_gds_from_goal (p: ConGD) { <PrefConGDs as From<ConGD>>::from(p).d() } { T::List(vec![node("PrefConGD.Goal", [p.d()])]) }
c17_pref_con_gds_preference (p: Option<PreferenceName>, q: ConGD) { PrefConGDs::new_preference(p, q).d() } { T::List(vec![node("PrefConGD.Preference", [p.d(), q.d()])]) }
c17_pref_con_gds_forall (p: TypedVariables, q: PrefConGDs) { PrefConGDs::new_forall(p, q).d() } { T::List(vec![node("PrefConGD.Forall", [p.d(), q.d()])]) }
c17_effects_new (p: CEffect) { Effects::new(p).d() } { T::List(vec![p.d()]) }
c17_precondition_goal_definitions_from_item (p: PreconditionGoalDefinition) { <PreconditionGoalDefinitions as From<PreconditionGoalDefinition>>::from(p).d() } { T::List(vec![p.d()]) }
c17_precondition_goal_definitions_from_option (p: Option<PreconditionGoalDefinition>) { <PreconditionGoalDefinitions as From<Option<PreconditionGoalDefinition>>>::from(p).d() } { match p { Some(x) => T::List(vec![x.d()]), None => T::List(Vec::new()) } }
c17_precondition_goal_definitions_from_optional_list (p: Option<PreconditionGoalDefinitions>) { <PreconditionGoalDefinitions as From<Option<PreconditionGoalDefinitions>>>::from(p).d() } { match p { Some(x) => x.d(), None => T::List(Vec::new()) } }
c19_precondition_goal_definitions_len (p: PreconditionGoalDefinitions) { int(p.len() as u64) } { int((&*p).len() as u64) }
c19_precondition_goal_definitions_is_empty (p: PreconditionGoalDefinitions) { b(p.is_empty()) } { b((&*p).len() == 0) }
c19_precondition_goal_definitions_single (p: PreconditionGoalDefinitions) { p.try_get_single().d() } { if (&*p).len() == 1 { node("some", [p[0].d()]) } else { node("none", []) } }
c19_precondition_goal_definitions_into_single (p: PreconditionGoalDefinitions) { TryInto::<PreconditionGoalDefinition>::try_into(p).d() } { if (&*p).len() == 1 { node("ok", [p[0].d()]) } else { node("err", []) } }
c17_pref_con_gds_from_item (p: PrefConGD) { <PrefConGDs as From<PrefConGD>>::from(p).d() } { T::List(vec![p.d()]) }
c17_pref_con_gds_from_option (p: Option<PrefConGD>) { <PrefConGDs as From<Option<PrefConGD>>>::from(p).d() } { match p { Some(x) => T::List(vec![x.d()]), None => T::List(Vec::new()) } }
c17_pref_con_gds_from_optional_list (p: Option<PrefConGDs>) { <PrefConGDs as From<Option<PrefConGDs>>>::from(p).d() } { match p { Some(x) => x.d(), None => T::List(Vec::new()) } }
c19_pref_con_gds_len (p: PrefConGDs) { int(p.len() as u64) } { int((&*p).len() as u64) }
c19_pref_con_gds_is_empty (p: PrefConGDs) { b(p.is_empty()) } { b((&*p).len() == 0) }
c19_pref_con_gds_single (p: PrefConGDs) { p.try_get_single().d() } { if (&*p).len() == 1 { node("some", [p[0].d()]) } else { node("none", []) } }
c19_pref_con_gds_into_single (p: PrefConGDs) { TryInto::<PrefConGD>::try_into(p).d() } { if (&*p).len() == 1 { node("ok", [p[0].d()]) } else { node("err", []) } }
c17_effects_from_item (p: CEffect) { <Effects as From<CEffect>>::from(p).d() } { T::List(vec![p.d()]) }
c19_effects_len (p: Effects) { int(p.len() as u64) } { int((&*p).len() as u64) }
c19_effects_is_empty (p: Effects) { b(p.is_empty()) } { b((&*p).len() == 0) }
c19_effects_single (p: Effects) { p.try_get_single().d() } { if (&*p).len() == 1 { node("some", [p[0].d()]) } else { node("none", []) } }
c19_effects_into_single (p: Effects) { TryInto::<CEffect>::try_into(p).d() } { if (&*p).len() == 1 { node("ok", [p[0].d()]) } else { node("err", []) } }
c17_goal_def_from_item (p: PreconditionGoalDefinition) { <GoalDef as From<PreconditionGoalDefinition>>::from(p).d() } { T::List(vec![p.d()]) }
c17_preconditions_from_goal_def (p: GoalDef) { <PreconditionGoalDefinitions as From<GoalDef>>::from(p).d() } { p.d() }
c17_pref_con_gds_from_def (p: ProblemConstraintsDef) { <PrefConGDs as From<ProblemConstraintsDef>>::from(p).d() } { p.d() }
c17_skeleton_name (p: Predicate, q: TypedVariables) { AtomicFormulaSkeleton::new(p, q).name().d() } { p.d() }
c17_function_skeleton_from_vec (p: FunctionSymbol, q: Vec<Typed<Variable>>) { <AtomicFunctionSkeleton as From<(FunctionSymbol, Vec<Typed<Variable>>)>>::from((p, q)).d() } { node("AtomicFunctionSkeleton", [p.d(), q.d()]) }
c17_action_definition_as_ref_0 (p: ActionSymbol, q: TypedVariables, r: PreconditionGoalDefinitions, s: Option<Effects>) { let x = ActionDefinition::new(p, q, r, s); AsRef::<ActionSymbol>::as_ref(&x).d() } { p.d() }
c17_basic_function_term_as_ref_0 (p: FunctionSymbol, q: Vec<Name>) { let x = BasicFunctionTerm::new(p, q); AsRef::<FunctionSymbol>::as_ref(&x).d() } { p.d() }
c17_basic_function_term_as_ref_1 (p: FunctionSymbol, q: Vec<Name>) { let x = BasicFunctionTerm::new(p, q); AsRef::<[Name]>::as_ref(&x).d() } { q.d() }
c17_function_term_as_ref_0 (p: FunctionSymbol, q: Vec<Term>) { let x = FunctionTerm::new(p, q); AsRef::<FunctionSymbol>::as_ref(&x).d() } { p.d() }
c17_function_term_as_ref_1 (p: FunctionSymbol, q: Vec<Term>) { let x = FunctionTerm::new(p, q); AsRef::<Vec<Term>>::as_ref(&x).d() } { q.d() }
c17_derived_predicate_as_ref_0 (p: AtomicFormulaSkeleton, q: GoalDefinition) { let x = DerivedPredicate::new(p, q); AsRef::<AtomicFormulaSkeleton>::as_ref(&x).d() } { p.d() }
c17_derived_predicate_as_ref_1 (p: AtomicFormulaSkeleton, q: GoalDefinition) { let x = DerivedPredicate::new(p, q); AsRef::<GoalDefinition>::as_ref(&x).d() } { q.d() }
c17_durative_action_definition_as_ref_0 (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); AsRef::<DurativeActionSymbol>::as_ref(&x).d() } { p.d() }
c17_durative_action_definition_as_ref_1 (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); AsRef::<TypedVariables>::as_ref(&x).d() } { q.d() }
c17_durative_action_definition_as_ref_2 (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); AsRef::<Option<DurationConstraint>>::as_ref(&x).d() } { r.d() }
c17_durative_action_definition_as_ref_3 (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); AsRef::<Option<DurativeActionGoalDefinition>>::as_ref(&x).d() } { s.d() }
c17_durative_action_definition_as_ref_4 (p: DurativeActionSymbol, q: TypedVariables, r: Option<DurationConstraint>, s: Option<DurativeActionGoalDefinition>, t: Option<DurativeActionEffect>) { let x = DurativeActionDefinition::new(p, q, r, s, t); AsRef::<Option<DurativeActionEffect>>::as_ref(&x).d() } { t.d() }
c17_formula_deref (p: Predicate, q: Vec<Term>) { let x = <PredicateAtomicFormula<Term>>::new(p, q); (&*x).d() } { q.d() }
c17_domain_builder (p: Name, q: StructureDefs) { Domain::builder(p, q).d() } { node("Domain", [p.d(), T::List(Vec::new()), T::List(Vec::new()), T::List(Vec::new()), T::List(Vec::new()), T::List(Vec::new()), T::List(Vec::new()), node("ConGD.And", [T::List(Vec::new())]), T::List(Vec::new()), q.d()]) }
c17_domain_built (name: Name, extends: Vec<Name>, requirements: Requirements, types: Types, constants: Constants, predicates: PredicateDefinitions, functions: Functions, constraints: DomainConstraintsDef, timeless: Timeless, structure: StructureDefs) { Domain::builder(name, structure).with_extends(extends).with_requirements(requirements).with_types(types).with_constants(constants).with_predicates(predicates).with_functions(functions).with_constraints(constraints).with_timeless(timeless).d() } { node("Domain", [name.d(), extends.d(), requirements.d(), types.d(), constants.d(), predicates.d(), functions.d(), constraints.d(), timeless.d(), structure.d()]) }
c17_domain_with_extends (x: Domain, p: Vec<Name>) { x.with_extends(p).d() } { node("Domain", [x.name().d(), p.d(), x.requirements().d(), x.types().d(), x.constants().d(), x.predicates().d(), x.functions().d(), x.constraints().d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_requirements (x: Domain, p: Requirements) { x.with_requirements(p).d() } { node("Domain", [x.name().d(), x.extends().d(), p.d(), x.types().d(), x.constants().d(), x.predicates().d(), x.functions().d(), x.constraints().d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_types (x: Domain, p: Types) { x.with_types(p).d() } { node("Domain", [x.name().d(), x.extends().d(), x.requirements().d(), p.d(), x.constants().d(), x.predicates().d(), x.functions().d(), x.constraints().d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_constants (x: Domain, p: Constants) { x.with_constants(p).d() } { node("Domain", [x.name().d(), x.extends().d(), x.requirements().d(), x.types().d(), p.d(), x.predicates().d(), x.functions().d(), x.constraints().d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_predicates (x: Domain, p: PredicateDefinitions) { x.with_predicates(p).d() } { node("Domain", [x.name().d(), x.extends().d(), x.requirements().d(), x.types().d(), x.constants().d(), p.d(), x.functions().d(), x.constraints().d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_functions (x: Domain, p: Functions) { x.with_functions(p).d() } { node("Domain", [x.name().d(), x.extends().d(), x.requirements().d(), x.types().d(), x.constants().d(), x.predicates().d(), p.d(), x.constraints().d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_constraints (x: Domain, p: DomainConstraintsDef) { x.with_constraints(p).d() } { node("Domain", [x.name().d(), x.extends().d(), x.requirements().d(), x.types().d(), x.constants().d(), x.predicates().d(), x.functions().d(), p.d(), x.timeless().d(), x.structure().d()]) }
c17_domain_with_timeless (x: Domain, p: Timeless) { x.with_timeless(p).d() } { node("Domain", [x.name().d(), x.extends().d(), x.requirements().d(), x.types().d(), x.constants().d(), x.predicates().d(), x.functions().d(), x.constraints().d(), p.d(), x.structure().d()]) }
c17_domain_as_predicates (x: Domain) { AsRef::<PredicateDefinitions>::as_ref(&x).d() } { x.predicates().d() }
c17_domain_as_requirements (x: Domain) { AsRef::<Requirements>::as_ref(&x).d() } { x.requirements().d() }
c17_domain_as_functions (x: Domain) { AsRef::<Functions>::as_ref(&x).d() } { x.functions().d() }
c17_domain_as_types (x: Domain) { AsRef::<Types>::as_ref(&x).d() } { x.types().d() }
c17_domain_as_structure (x: Domain) { AsRef::<StructureDefs>::as_ref(&x).d() } { x.structure().d() }
c17_problem_builder (p: Name, q: Name, r: InitElements, s: GoalDef) { Problem::builder(p, q, r, s).d() } { node("Problem", [p.d(), q.d(), T::List(Vec::new()), T::List(Vec::new()), r.d(), s.d(), T::List(Vec::new()), node("none", []), node("none", [])]) }
c17_problem_with_requirements (x: Problem, p: Requirements) { x.with_requirements(p).d() } { node("Problem", [x.name().d(), x.domain().d(), p.d(), x.objects().d(), x.init().d(), x.goals().d(), x.constraints().d(), x.metric_spec().d(), x.length_spec().d()]) }
c17_problem_with_objects (x: Problem, p: Objects) { x.with_objects(p).d() } { node("Problem", [x.name().d(), x.domain().d(), x.requirements().d(), p.d(), x.init().d(), x.goals().d(), x.constraints().d(), x.metric_spec().d(), x.length_spec().d()]) }
c17_problem_with_constraints (x: Problem, p: ProblemConstraintsDef) { x.with_constraints(p).d() } { node("Problem", [x.name().d(), x.domain().d(), x.requirements().d(), x.objects().d(), x.init().d(), x.goals().d(), p.d(), x.metric_spec().d(), x.length_spec().d()]) }
c17_problem_with_metric_spec (x: Problem, p: MetricSpec) { x.with_metric_spec(p).d() } { node("Problem", [x.name().d(), x.domain().d(), x.requirements().d(), x.objects().d(), x.init().d(), x.goals().d(), x.constraints().d(), node("some", [p.d()]), x.length_spec().d()]) }
c17_problem_with_length_spec (x: Problem, p: LengthSpec) { x.with_length_spec(p).d() } { node("Problem", [x.name().d(), x.domain().d(), x.requirements().d(), x.objects().d(), x.init().d(), x.goals().d(), x.constraints().d(), x.metric_spec().d(), node("some", [p.d()])]) }
c19_conditional_effect_items (p: ConditionalEffect) { T::List(p.into_iter().map(|x| x.d()).collect()) } { match p { ConditionalEffect::Single(x) => T::List(vec![x.d()]), ConditionalEffect::All(xs) => xs.d() } }
c19_conditional_effect_each (p: ConditionalEffect) { { let mut out = Vec::new(); p.into_iter().for_each(|x| out.push(x.d())); T::List(out) } } { match p { ConditionalEffect::Single(x) => T::List(vec![x.d()]), ConditionalEffect::All(xs) => xs.d() } }
c19_conditional_effect_fold (p: ConditionalEffect) { { let out = p.into_iter().fold(Vec::new(), |mut out, x| { out.push(x.d()); out }); T::List(out) } } { match p { ConditionalEffect::Single(x) => T::List(vec![x.d()]), ConditionalEffect::All(xs) => xs.d() } }
c19_conditional_effect_count (p: ConditionalEffect) { int(p.into_iter().count() as u64) } { match p { ConditionalEffect::Single(x) => { let _ = x; int(1) }, ConditionalEffect::All(xs) => int(xs.len() as u64) } }
c19_conditional_effect_nth_0 (p: ConditionalEffect) { p.into_iter().nth(0).d() } { match p { ConditionalEffect::Single(x) => node("some", [x.d()]), ConditionalEffect::All(xs) => xs.into_iter().nth(0).d() } }
c19_conditional_effect_nth_1 (p: ConditionalEffect) { p.into_iter().nth(1).d() } { match p { ConditionalEffect::Single(x) => { let _ = x; node("none", []) }, ConditionalEffect::All(xs) => xs.into_iter().nth(1).d() } }
c19_conditional_effect_nth_2 (p: ConditionalEffect) { p.into_iter().nth(2).d() } { match p { ConditionalEffect::Single(x) => { let _ = x; node("none", []) }, ConditionalEffect::All(xs) => xs.into_iter().nth(2).d() } }
c19_conditional_effect_last (p: ConditionalEffect) { p.into_iter().last().d() } { match p { ConditionalEffect::Single(x) => node("some", [x.d()]), ConditionalEffect::All(xs) => xs.into_iter().last().d() } }
c19_conditional_effect_size_hint (p: ConditionalEffect) { { let i = p.into_iter(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) } } { b(true) }
c19_conditional_effect_rest (p: ConditionalEffect) { { let mut i = p.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) } } { match p { ConditionalEffect::Single(x) => node("pair", [node("some", [x.d()]), T::List(vec![])]), ConditionalEffect::All(xs) => { let mut i = xs.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) } } }
c19_conditional_effect_rest_fold (p: ConditionalEffect) { { let mut i = p.into_iter(); let _ = i.next(); T::List(i.fold(Vec::new(), |mut out, x| { out.push(x.d()); out })) } } { match p { ConditionalEffect::Single(x) => { let _ = x; T::List(vec![]) }, ConditionalEffect::All(xs) => { let mut i = xs.into_iter(); let _ = i.next(); T::List(i.map(|x| x.d()).collect()) } } }
c19_conditional_effect_rest_count (p: ConditionalEffect) { { let mut i = p.into_iter(); let _ = i.next(); int(i.count() as u64) } } { match p { ConditionalEffect::Single(x) => { let _ = x; int(0) }, ConditionalEffect::All(xs) => { let mut i = xs.into_iter(); let _ = i.next(); int(i.count() as u64) } } }
c19_conditional_effect_rest_last (p: ConditionalEffect) { { let mut i = p.into_iter(); let _ = i.next(); i.last().d() } } { match p { ConditionalEffect::Single(x) => { let _ = x; node("none", []) }, ConditionalEffect::All(xs) => { let mut i = xs.into_iter(); let _ = i.next(); i.last().d() } } }
c19_conditional_effect_rest_size_hint (p: ConditionalEffect) { { let mut i = p.into_iter(); let _ = i.next(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) } } { b(true) }
c19_duration_constraint_items (p: DurationConstraint) { T::List(p.into_iter().map(|x| x.d()).collect()) } { match p { DurationConstraint::Single(x) => T::List(vec![x.d()]), DurationConstraint::All(xs) => xs.d() } }
c19_duration_constraint_each (p: DurationConstraint) { { let mut out = Vec::new(); p.into_iter().for_each(|x| out.push(x.d())); T::List(out) } } { match p { DurationConstraint::Single(x) => T::List(vec![x.d()]), DurationConstraint::All(xs) => xs.d() } }
c19_duration_constraint_fold (p: DurationConstraint) { { let out = p.into_iter().fold(Vec::new(), |mut out, x| { out.push(x.d()); out }); T::List(out) } } { match p { DurationConstraint::Single(x) => T::List(vec![x.d()]), DurationConstraint::All(xs) => xs.d() } }
c19_duration_constraint_count (p: DurationConstraint) { int(p.into_iter().count() as u64) } { match p { DurationConstraint::Single(x) => { let _ = x; int(1) }, DurationConstraint::All(xs) => int(xs.len() as u64) } }
c19_duration_constraint_nth_0 (p: DurationConstraint) { p.into_iter().nth(0).d() } { match p { DurationConstraint::Single(x) => node("some", [x.d()]), DurationConstraint::All(xs) => xs.into_iter().nth(0).d() } }
c19_duration_constraint_nth_1 (p: DurationConstraint) { p.into_iter().nth(1).d() } { match p { DurationConstraint::Single(x) => { let _ = x; node("none", []) }, DurationConstraint::All(xs) => xs.into_iter().nth(1).d() } }
c19_duration_constraint_nth_2 (p: DurationConstraint) { p.into_iter().nth(2).d() } { match p { DurationConstraint::Single(x) => { let _ = x; node("none", []) }, DurationConstraint::All(xs) => xs.into_iter().nth(2).d() } }
c19_duration_constraint_last (p: DurationConstraint) { p.into_iter().last().d() } { match p { DurationConstraint::Single(x) => node("some", [x.d()]), DurationConstraint::All(xs) => xs.into_iter().last().d() } }
c19_duration_constraint_size_hint (p: DurationConstraint) { { let i = p.into_iter(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) } } { b(true) }
c19_duration_constraint_rest (p: DurationConstraint) { { let mut i = p.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) } } { match p { DurationConstraint::Single(x) => node("pair", [node("some", [x.d()]), T::List(vec![])]), DurationConstraint::All(xs) => { let mut i = xs.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) } } }
c19_duration_constraint_rest_fold (p: DurationConstraint) { { let mut i = p.into_iter(); let _ = i.next(); T::List(i.fold(Vec::new(), |mut out, x| { out.push(x.d()); out })) } } { match p { DurationConstraint::Single(x) => { let _ = x; T::List(vec![]) }, DurationConstraint::All(xs) => { let mut i = xs.into_iter(); let _ = i.next(); T::List(i.map(|x| x.d()).collect()) } } }
c19_duration_constraint_rest_count (p: DurationConstraint) { { let mut i = p.into_iter(); let _ = i.next(); int(i.count() as u64) } } { match p { DurationConstraint::Single(x) => { let _ = x; int(0) }, DurationConstraint::All(xs) => { let mut i = xs.into_iter(); let _ = i.next(); int(i.count() as u64) } } }
c19_duration_constraint_rest_last (p: DurationConstraint) { { let mut i = p.into_iter(); let _ = i.next(); i.last().d() } } { match p { DurationConstraint::Single(x) => { let _ = x; node("none", []) }, DurationConstraint::All(xs) => { let mut i = xs.into_iter(); let _ = i.next(); i.last().d() } } }
c19_duration_constraint_rest_size_hint (p: DurationConstraint) { { let mut i = p.into_iter(); let _ = i.next(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) } } { b(true) }
c19_duration_constraint_len (p: DurationConstraint) { int(p.len() as u64) } { match &p { DurationConstraint::Single(_) => int(1), DurationConstraint::All(xs) => int(xs.len() as u64) } }
c19_type_items (p: Type) { T::List(p.into_iter().map(|x| x.d()).collect()) } { match p { Type::Exactly(x) => T::List(vec![x.d()]), Type::EitherOf(xs) => xs.d() } }
c19_type_each (p: Type) { { let mut out = Vec::new(); p.into_iter().for_each(|x| out.push(x.d())); T::List(out) } } { match p { Type::Exactly(x) => T::List(vec![x.d()]), Type::EitherOf(xs) => xs.d() } }
c19_type_fold (p: Type) { { let out = p.into_iter().fold(Vec::new(), |mut out, x| { out.push(x.d()); out }); T::List(out) } } { match p { Type::Exactly(x) => T::List(vec![x.d()]), Type::EitherOf(xs) => xs.d() } }
c19_type_count (p: Type) { int(p.into_iter().count() as u64) } { match p { Type::Exactly(x) => { let _ = x; int(1) }, Type::EitherOf(xs) => int(xs.len() as u64) } }
c19_type_nth_0 (p: Type) { p.into_iter().nth(0).d() } { match p { Type::Exactly(x) => node("some", [x.d()]), Type::EitherOf(xs) => xs.into_iter().nth(0).d() } }
c19_type_nth_1 (p: Type) { p.into_iter().nth(1).d() } { match p { Type::Exactly(x) => { let _ = x; node("none", []) }, Type::EitherOf(xs) => xs.into_iter().nth(1).d() } }
c19_type_nth_2 (p: Type) { p.into_iter().nth(2).d() } { match p { Type::Exactly(x) => { let _ = x; node("none", []) }, Type::EitherOf(xs) => xs.into_iter().nth(2).d() } }
c19_type_last (p: Type) { p.into_iter().last().d() } { match p { Type::Exactly(x) => node("some", [x.d()]), Type::EitherOf(xs) => xs.into_iter().last().d() } }
c19_type_size_hint (p: Type) { { let i = p.into_iter(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) } } { b(true) }
c19_type_rest (p: Type) { { let mut i = p.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) } } { match p { Type::Exactly(x) => node("pair", [node("some", [x.d()]), T::List(vec![])]), Type::EitherOf(xs) => { let mut i = xs.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) } } }
c19_type_rest_fold (p: Type) { { let mut i = p.into_iter(); let _ = i.next(); T::List(i.fold(Vec::new(), |mut out, x| { out.push(x.d()); out })) } } { match p { Type::Exactly(x) => { let _ = x; T::List(vec![]) }, Type::EitherOf(xs) => { let mut i = xs.into_iter(); let _ = i.next(); T::List(i.map(|x| x.d()).collect()) } } }
c19_type_rest_count (p: Type) { { let mut i = p.into_iter(); let _ = i.next(); int(i.count() as u64) } } { match p { Type::Exactly(x) => { let _ = x; int(0) }, Type::EitherOf(xs) => { let mut i = xs.into_iter(); let _ = i.next(); int(i.count() as u64) } } }
c19_type_rest_last (p: Type) { { let mut i = p.into_iter(); let _ = i.next(); i.last().d() } } { match p { Type::Exactly(x) => { let _ = x; node("none", []) }, Type::EitherOf(xs) => { let mut i = xs.into_iter(); let _ = i.next(); i.last().d() } } }
c19_type_rest_size_hint (p: Type) { { let mut i = p.into_iter(); let _ = i.next(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) } } { b(true) }
c19_type_len (p: Type) { int(p.len() as u64) } { match &p { Type::Exactly(_) => int(1), Type::EitherOf(xs) => int(xs.len() as u64) } }
c19_duration_constraint_is_empty (p: DurationConstraint) { b(p.is_empty()) } { match &p { DurationConstraint::Single(_) => b(false), DurationConstraint::All(xs) => b(xs.len() == 0) } }
c19_gd_is_empty (p: GoalDefinition) { b(p.is_empty()) } { match &p { GoalDefinition::AtomicFormula(_) | GoalDefinition::Literal(_) | GoalDefinition::FComp(_) => b(false), GoalDefinition::And(xs) | GoalDefinition::Or(xs) => b(xs.iter().all(|x| x.is_empty())), GoalDefinition::Not(x) | GoalDefinition::Exists(_, x) | GoalDefinition::ForAll(_, x) => b(x.is_empty()), GoalDefinition::Imply(x, y) => b(x.is_empty() && y.is_empty()) } }
c19_con_gd_is_empty (p: ConGD) { b(p.is_empty()) } { match &p { ConGD::And(xs) => b(xs.iter().all(|x| x.is_empty())), ConGD::Forall(_, x) => b(x.is_empty()), ConGD::AtEnd(x) => b(x.is_empty()), ConGD::Always(x) | ConGD::Sometime(x) | ConGD::AtMostOnce(x) | ConGD::Within(_, x) | ConGD::HoldAfter(_, x) | ConGD::HoldDuring(_, _, x) => b(x.is_empty()), ConGD::SometimeAfter(x, y) | ConGD::SometimeBefore(x, y) | ConGD::AlwaysWithin(_, x, y) => b(x.is_empty() && y.is_empty()) } }
c19_con2_gd_is_empty (p: Con2GD) { b(p.is_empty()) } { match &p { Con2GD::Goal(x) => b(x.is_empty()), Con2GD::Nested(x) => b(x.is_empty()) } }
c19_pref_con_gd_is_empty (p: PrefConGD) { b(p.is_empty()) } { match &p { PrefConGD::Goal(x) | PrefConGD::Preference(_, x) => b(x.is_empty()), PrefConGD::Forall(_, x) => b(x.is_empty()) } }
c19_preference_is_empty (p: Preference) { b(p.is_empty()) } { b(p.goal().is_empty()) }
c19_typed_list_eq_vec (p: TypedList<Name>, q: Vec<Typed<Name>>) { b(p == q) } { b(same(&p.d(), &q.d())) }
c19_typed_list_eq_slice (p: TypedList<Name>, q: Vec<Typed<Name>>) { b(p == q[..]) } { b(same(&p.d(), &q.d())) }
c19_function_typed_list_eq_vec (p: FunctionTypedList<Name>, q: Vec<FunctionTyped<Name>>) { b(p == q) } { b(same(&p.d(), &q.d())) }
c19_function_typed_list_eq_slice (p: FunctionTypedList<Name>, q: Vec<FunctionTyped<Name>>) { b(p == q[..]) } { b(same(&p.d(), &q.d())) }
c19_constraints_eq (p: DomainConstraintsDef, q: ConGD) { b(p == q) } { b(same(&p.d(), &q.d())) }
c19_problem_constraints_eq (p: ProblemConstraintsDef, q: PrefConGDs) { b(p == q) } { b(same(&p.d(), &q.d())) }
c19_goal_def_eq (p: GoalDef, q: PreconditionGoalDefinitions) { b(p == q) } { b(same(&p.d(), &q.d())) }
c20_action_definition_clone (x: ActionDefinition) { x.clone().d() } { x.d() }
c20_action_definition_eq (x: ActionDefinition, y: ActionDefinition) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_action_definition_ne (x: ActionDefinition, y: ActionDefinition) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_action_symbol_clone (x: ActionSymbol) { x.clone().d() } { x.d() }
c20_action_symbol_eq (x: ActionSymbol, y: ActionSymbol) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_action_symbol_ne (x: ActionSymbol, y: ActionSymbol) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_assign_op_clone (x: AssignOp) { x.clone().d() } { x.d() }
c20_assign_op_eq (x: AssignOp, y: AssignOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_assign_op_ne (x: AssignOp, y: AssignOp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_assign_op_t_clone (x: AssignOpT) { x.clone().d() } { x.d() }
c20_assign_op_t_eq (x: AssignOpT, y: AssignOpT) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_assign_op_t_ne (x: AssignOpT, y: AssignOpT) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_atomic_formula_skeleton_clone (x: AtomicFormulaSkeleton) { x.clone().d() } { x.d() }
c20_atomic_formula_skeleton_eq (x: AtomicFormulaSkeleton, y: AtomicFormulaSkeleton) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_atomic_formula_skeleton_ne (x: AtomicFormulaSkeleton, y: AtomicFormulaSkeleton) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_atomic_function_skeleton_clone (x: AtomicFunctionSkeleton) { x.clone().d() } { x.d() }
c20_atomic_function_skeleton_eq (x: AtomicFunctionSkeleton, y: AtomicFunctionSkeleton) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_atomic_function_skeleton_ne (x: AtomicFunctionSkeleton, y: AtomicFunctionSkeleton) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_basic_function_term_clone (x: BasicFunctionTerm) { x.clone().d() } { x.d() }
c20_basic_function_term_eq (x: BasicFunctionTerm, y: BasicFunctionTerm) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_basic_function_term_ne (x: BasicFunctionTerm, y: BasicFunctionTerm) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_binary_comp_clone (x: BinaryComp) { x.clone().d() } { x.d() }
c20_binary_comp_eq (x: BinaryComp, y: BinaryComp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_binary_comp_ne (x: BinaryComp, y: BinaryComp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_binary_op_clone (x: BinaryOp) { x.clone().d() } { x.d() }
c20_binary_op_eq (x: BinaryOp, y: BinaryOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_binary_op_ne (x: BinaryOp, y: BinaryOp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_ceffect_clone (x: CEffect) { x.clone().d() } { x.d() }
c20_ceffect_eq (x: CEffect, y: CEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_ceffect_ne (x: CEffect, y: CEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_con2_gd_clone (x: Con2GD) { x.clone().d() } { x.d() }
c20_con2_gd_eq (x: Con2GD, y: Con2GD) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_con2_gd_ne (x: Con2GD, y: Con2GD) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_con_gd_clone (x: ConGD) { x.clone().d() } { x.d() }
c20_con_gd_eq (x: ConGD, y: ConGD) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_con_gd_ne (x: ConGD, y: ConGD) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_conditional_effect_clone (x: ConditionalEffect) { x.clone().d() } { x.d() }
c20_conditional_effect_eq (x: ConditionalEffect, y: ConditionalEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_conditional_effect_ne (x: ConditionalEffect, y: ConditionalEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_constants_clone (x: Constants) { x.clone().d() } { x.d() }
c20_constants_eq (x: Constants, y: Constants) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_constants_ne (x: Constants, y: Constants) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_dop_clone (x: DOp) { x.clone().d() } { x.d() }
c20_dop_eq (x: DOp, y: DOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_dop_ne (x: DOp, y: DOp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_derived_predicate_clone (x: DerivedPredicate) { x.clone().d() } { x.d() }
c20_derived_predicate_eq (x: DerivedPredicate, y: DerivedPredicate) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_derived_predicate_ne (x: DerivedPredicate, y: DerivedPredicate) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_domain_clone (x: Domain) { x.clone().d() } { x.d() }
c20_domain_eq (x: Domain, y: Domain) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_domain_ne (x: Domain, y: Domain) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_domain_constraints_def_clone (x: DomainConstraintsDef) { x.clone().d() } { x.d() }
c20_domain_constraints_def_eq (x: DomainConstraintsDef, y: DomainConstraintsDef) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_domain_constraints_def_ne (x: DomainConstraintsDef, y: DomainConstraintsDef) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_duration_constraint_clone (x: DurationConstraint) { x.clone().d() } { x.d() }
c20_duration_constraint_eq (x: DurationConstraint, y: DurationConstraint) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_duration_constraint_ne (x: DurationConstraint, y: DurationConstraint) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_duration_value_clone (x: DurationValue) { x.clone().d() } { x.d() }
c20_duration_value_eq (x: DurationValue, y: DurationValue) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_duration_value_ne (x: DurationValue, y: DurationValue) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_durative_action_definition_clone (x: DurativeActionDefinition) { x.clone().d() } { x.d() }
c20_durative_action_definition_eq (x: DurativeActionDefinition, y: DurativeActionDefinition) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_durative_action_definition_ne (x: DurativeActionDefinition, y: DurativeActionDefinition) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_durative_action_effect_clone (x: DurativeActionEffect) { x.clone().d() } { x.d() }
c20_durative_action_effect_eq (x: DurativeActionEffect, y: DurativeActionEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_durative_action_effect_ne (x: DurativeActionEffect, y: DurativeActionEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_durative_action_goal_definition_clone (x: DurativeActionGoalDefinition) { x.clone().d() } { x.d() }
c20_durative_action_goal_definition_eq (x: DurativeActionGoalDefinition, y: DurativeActionGoalDefinition) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_durative_action_goal_definition_ne (x: DurativeActionGoalDefinition, y: DurativeActionGoalDefinition) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_durative_action_symbol_clone (x: DurativeActionSymbol) { x.clone().d() } { x.d() }
c20_durative_action_symbol_eq (x: DurativeActionSymbol, y: DurativeActionSymbol) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_durative_action_symbol_ne (x: DurativeActionSymbol, y: DurativeActionSymbol) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_effects_clone (x: Effects) { x.clone().d() } { x.d() }
c20_effects_eq (x: Effects, y: Effects) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_effects_ne (x: Effects, y: Effects) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_fassign_da_clone (x: FAssignDa) { x.clone().d() } { x.d() }
c20_fassign_da_eq (x: FAssignDa, y: FAssignDa) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_fassign_da_ne (x: FAssignDa, y: FAssignDa) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_fcomp_clone (x: FComp) { x.clone().d() } { x.d() }
c20_fcomp_eq (x: FComp, y: FComp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_fcomp_ne (x: FComp, y: FComp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_fexp_clone (x: FExp) { x.clone().d() } { x.d() }
c20_fexp_eq (x: FExp, y: FExp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_fexp_ne (x: FExp, y: FExp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_fexp_da_clone (x: FExpDa) { x.clone().d() } { x.d() }
c20_fexp_da_eq (x: FExpDa, y: FExpDa) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_fexp_da_ne (x: FExpDa, y: FExpDa) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_fexp_t_clone (x: FExpT) { x.clone().d() } { x.d() }
c20_fexp_t_eq (x: FExpT, y: FExpT) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_fexp_t_ne (x: FExpT, y: FExpT) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_fhead_clone (x: FHead) { x.clone().d() } { x.d() }
c20_fhead_eq (x: FHead, y: FHead) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_fhead_ne (x: FHead, y: FHead) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_forall_ceffect_clone (x: ForallCEffect) { x.clone().d() } { x.d() }
c20_forall_ceffect_eq (x: ForallCEffect, y: ForallCEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_forall_ceffect_ne (x: ForallCEffect, y: ForallCEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_function_symbol_clone (x: FunctionSymbol) { x.clone().d() } { x.d() }
c20_function_symbol_eq (x: FunctionSymbol, y: FunctionSymbol) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_function_symbol_ne (x: FunctionSymbol, y: FunctionSymbol) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_function_term_clone (x: FunctionTerm) { x.clone().d() } { x.d() }
c20_function_term_eq (x: FunctionTerm, y: FunctionTerm) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_function_term_ne (x: FunctionTerm, y: FunctionTerm) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_function_type_clone (x: FunctionType) { x.clone().d() } { x.d() }
c20_function_type_eq (x: FunctionType, y: FunctionType) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_function_type_ne (x: FunctionType, y: FunctionType) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_functions_clone (x: Functions) { x.clone().d() } { x.d() }
c20_functions_eq (x: Functions, y: Functions) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_functions_ne (x: Functions, y: Functions) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_goal_def_clone (x: GoalDef) { x.clone().d() } { x.d() }
c20_goal_def_eq (x: GoalDef, y: GoalDef) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_goal_def_ne (x: GoalDef, y: GoalDef) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_goal_definition_clone (x: GoalDefinition) { x.clone().d() } { x.d() }
c20_goal_definition_eq (x: GoalDefinition, y: GoalDefinition) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_goal_definition_ne (x: GoalDefinition, y: GoalDefinition) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_init_element_clone (x: InitElement) { x.clone().d() } { x.d() }
c20_init_element_eq (x: InitElement, y: InitElement) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_init_element_ne (x: InitElement, y: InitElement) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_init_elements_clone (x: InitElements) { x.clone().d() } { x.d() }
c20_init_elements_eq (x: InitElements, y: InitElements) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_init_elements_ne (x: InitElements, y: InitElements) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_interval_clone (x: Interval) { x.clone().d() } { x.d() }
c20_interval_eq (x: Interval, y: Interval) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_interval_ne (x: Interval, y: Interval) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_length_spec_clone (x: LengthSpec) { x.clone().d() } { x.d() }
c20_length_spec_eq (x: LengthSpec, y: LengthSpec) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_length_spec_ne (x: LengthSpec, y: LengthSpec) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_metric_fexp_clone (x: MetricFExp) { x.clone().d() } { x.d() }
c20_metric_fexp_eq (x: MetricFExp, y: MetricFExp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_metric_fexp_ne (x: MetricFExp, y: MetricFExp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_metric_spec_clone (x: MetricSpec) { x.clone().d() } { x.d() }
c20_metric_spec_eq (x: MetricSpec, y: MetricSpec) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_metric_spec_ne (x: MetricSpec, y: MetricSpec) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_multi_op_clone (x: MultiOp) { x.clone().d() } { x.d() }
c20_multi_op_eq (x: MultiOp, y: MultiOp) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_multi_op_ne (x: MultiOp, y: MultiOp) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_objects_clone (x: Objects) { x.clone().d() } { x.d() }
c20_objects_eq (x: Objects, y: Objects) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_objects_ne (x: Objects, y: Objects) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_optimization_clone (x: Optimization) { x.clone().d() } { x.d() }
c20_optimization_eq (x: Optimization, y: Optimization) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_optimization_ne (x: Optimization, y: Optimization) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_peffect_clone (x: PEffect) { x.clone().d() } { x.d() }
c20_peffect_eq (x: PEffect, y: PEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_peffect_ne (x: PEffect, y: PEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_precondition_goal_definition_clone (x: PreconditionGoalDefinition) { x.clone().d() } { x.d() }
c20_precondition_goal_definition_eq (x: PreconditionGoalDefinition, y: PreconditionGoalDefinition) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_precondition_goal_definition_ne (x: PreconditionGoalDefinition, y: PreconditionGoalDefinition) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_precondition_goal_definitions_clone (x: PreconditionGoalDefinitions) { x.clone().d() } { x.d() }
c20_precondition_goal_definitions_eq (x: PreconditionGoalDefinitions, y: PreconditionGoalDefinitions) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_precondition_goal_definitions_ne (x: PreconditionGoalDefinitions, y: PreconditionGoalDefinitions) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_predicate_clone (x: Predicate) { x.clone().d() } { x.d() }
c20_predicate_eq (x: Predicate, y: Predicate) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_predicate_ne (x: Predicate, y: Predicate) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_predicate_definitions_clone (x: PredicateDefinitions) { x.clone().d() } { x.d() }
c20_predicate_definitions_eq (x: PredicateDefinitions, y: PredicateDefinitions) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_predicate_definitions_ne (x: PredicateDefinitions, y: PredicateDefinitions) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_pref_con_gd_clone (x: PrefConGD) { x.clone().d() } { x.d() }
c20_pref_con_gd_eq (x: PrefConGD, y: PrefConGD) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_pref_con_gd_ne (x: PrefConGD, y: PrefConGD) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_pref_con_gds_clone (x: PrefConGDs) { x.clone().d() } { x.d() }
c20_pref_con_gds_eq (x: PrefConGDs, y: PrefConGDs) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_pref_con_gds_ne (x: PrefConGDs, y: PrefConGDs) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_pref_timed_gd_clone (x: PrefTimedGD) { x.clone().d() } { x.d() }
c20_pref_timed_gd_eq (x: PrefTimedGD, y: PrefTimedGD) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_pref_timed_gd_ne (x: PrefTimedGD, y: PrefTimedGD) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_preference_clone (x: Preference) { x.clone().d() } { x.d() }
c20_preference_eq (x: Preference, y: Preference) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_preference_ne (x: Preference, y: Preference) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_preference_gd_clone (x: PreferenceGD) { x.clone().d() } { x.d() }
c20_preference_gd_eq (x: PreferenceGD, y: PreferenceGD) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_preference_gd_ne (x: PreferenceGD, y: PreferenceGD) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_preference_name_clone (x: PreferenceName) { x.clone().d() } { x.d() }
c20_preference_name_eq (x: PreferenceName, y: PreferenceName) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_preference_name_ne (x: PreferenceName, y: PreferenceName) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_primitive_type_clone (x: PrimitiveType) { x.clone().d() } { x.d() }
c20_primitive_type_eq (x: PrimitiveType, y: PrimitiveType) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_primitive_type_ne (x: PrimitiveType, y: PrimitiveType) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_problem_clone (x: Problem) { x.clone().d() } { x.d() }
c20_problem_eq (x: Problem, y: Problem) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_problem_ne (x: Problem, y: Problem) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_problem_constraints_def_clone (x: ProblemConstraintsDef) { x.clone().d() } { x.d() }
c20_problem_constraints_def_eq (x: ProblemConstraintsDef, y: ProblemConstraintsDef) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_problem_constraints_def_ne (x: ProblemConstraintsDef, y: ProblemConstraintsDef) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_requirement_clone (x: Requirement) { x.clone().d() } { x.d() }
c20_requirement_eq (x: Requirement, y: Requirement) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_requirement_ne (x: Requirement, y: Requirement) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_requirements_clone (x: Requirements) { x.clone().d() } { x.d() }
c20_requirements_eq (x: Requirements, y: Requirements) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_requirements_ne (x: Requirements, y: Requirements) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_simple_duration_constraint_clone (x: SimpleDurationConstraint) { x.clone().d() } { x.d() }
c20_simple_duration_constraint_eq (x: SimpleDurationConstraint, y: SimpleDurationConstraint) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_simple_duration_constraint_ne (x: SimpleDurationConstraint, y: SimpleDurationConstraint) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_structure_def_clone (x: StructureDef) { x.clone().d() } { x.d() }
c20_structure_def_eq (x: StructureDef, y: StructureDef) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_structure_def_ne (x: StructureDef, y: StructureDef) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_structure_defs_clone (x: StructureDefs) { x.clone().d() } { x.d() }
c20_structure_defs_eq (x: StructureDefs, y: StructureDefs) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_structure_defs_ne (x: StructureDefs, y: StructureDefs) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_term_clone (x: Term) { x.clone().d() } { x.d() }
c20_term_eq (x: Term, y: Term) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_term_ne (x: Term, y: Term) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_time_specifier_clone (x: TimeSpecifier) { x.clone().d() } { x.d() }
c20_time_specifier_eq (x: TimeSpecifier, y: TimeSpecifier) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_time_specifier_ne (x: TimeSpecifier, y: TimeSpecifier) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_timed_effect_clone (x: TimedEffect) { x.clone().d() } { x.d() }
c20_timed_effect_eq (x: TimedEffect, y: TimedEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_timed_effect_ne (x: TimedEffect, y: TimedEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_timed_gd_clone (x: TimedGD) { x.clone().d() } { x.d() }
c20_timed_gd_eq (x: TimedGD, y: TimedGD) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_timed_gd_ne (x: TimedGD, y: TimedGD) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_timeless_clone (x: Timeless) { x.clone().d() } { x.d() }
c20_timeless_eq (x: Timeless, y: Timeless) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_timeless_ne (x: Timeless, y: Timeless) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_type_clone (x: Type) { x.clone().d() } { x.d() }
c20_type_eq (x: Type, y: Type) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_type_ne (x: Type, y: Type) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_types_clone (x: Types) { x.clone().d() } { x.d() }
c20_types_eq (x: Types, y: Types) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_types_ne (x: Types, y: Types) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_variable_clone (x: Variable) { x.clone().d() } { x.d() }
c20_variable_eq (x: Variable, y: Variable) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_variable_ne (x: Variable, y: Variable) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_when_ceffect_clone (x: WhenCEffect) { x.clone().d() } { x.d() }
c20_when_ceffect_eq (x: WhenCEffect, y: WhenCEffect) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_when_ceffect_ne (x: WhenCEffect, y: WhenCEffect) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_atomic_formula_term_clone (x: AtomicFormula<Term>) { x.clone().d() } { x.d() }
c20_atomic_formula_term_eq (x: AtomicFormula<Term>, y: AtomicFormula<Term>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_atomic_formula_term_ne (x: AtomicFormula<Term>, y: AtomicFormula<Term>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_atomic_formula_name_clone (x: AtomicFormula<Name>) { x.clone().d() } { x.d() }
c20_atomic_formula_name_eq (x: AtomicFormula<Name>, y: AtomicFormula<Name>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_atomic_formula_name_ne (x: AtomicFormula<Name>, y: AtomicFormula<Name>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_equality_atomic_formula_term_clone (x: EqualityAtomicFormula<Term>) { x.clone().d() } { x.d() }
c20_equality_atomic_formula_term_eq (x: EqualityAtomicFormula<Term>, y: EqualityAtomicFormula<Term>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_equality_atomic_formula_term_ne (x: EqualityAtomicFormula<Term>, y: EqualityAtomicFormula<Term>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_equality_atomic_formula_name_clone (x: EqualityAtomicFormula<Name>) { x.clone().d() } { x.d() }
c20_equality_atomic_formula_name_eq (x: EqualityAtomicFormula<Name>, y: EqualityAtomicFormula<Name>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_equality_atomic_formula_name_ne (x: EqualityAtomicFormula<Name>, y: EqualityAtomicFormula<Name>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_predicate_atomic_formula_term_clone (x: PredicateAtomicFormula<Term>) { x.clone().d() } { x.d() }
c20_predicate_atomic_formula_term_eq (x: PredicateAtomicFormula<Term>, y: PredicateAtomicFormula<Term>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_predicate_atomic_formula_term_ne (x: PredicateAtomicFormula<Term>, y: PredicateAtomicFormula<Term>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_predicate_atomic_formula_name_clone (x: PredicateAtomicFormula<Name>) { x.clone().d() } { x.d() }
c20_predicate_atomic_formula_name_eq (x: PredicateAtomicFormula<Name>, y: PredicateAtomicFormula<Name>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_predicate_atomic_formula_name_ne (x: PredicateAtomicFormula<Name>, y: PredicateAtomicFormula<Name>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_literal_term_clone (x: Literal<Term>) { x.clone().d() } { x.d() }
c20_literal_term_eq (x: Literal<Term>, y: Literal<Term>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_literal_term_ne (x: Literal<Term>, y: Literal<Term>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_literal_name_clone (x: Literal<Name>) { x.clone().d() } { x.d() }
c20_literal_name_eq (x: Literal<Name>, y: Literal<Name>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_literal_name_ne (x: Literal<Name>, y: Literal<Name>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_typed_name_clone (x: Typed<Name>) { x.clone().d() } { x.d() }
c20_typed_name_eq (x: Typed<Name>, y: Typed<Name>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_typed_name_ne (x: Typed<Name>, y: Typed<Name>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_typed_variable_clone (x: Typed<Variable>) { x.clone().d() } { x.d() }
c20_typed_variable_eq (x: Typed<Variable>, y: Typed<Variable>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_typed_variable_ne (x: Typed<Variable>, y: Typed<Variable>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_typed_list_name_clone (x: TypedList<Name>) { x.clone().d() } { x.d() }
c20_typed_list_name_eq (x: TypedList<Name>, y: TypedList<Name>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_typed_list_name_ne (x: TypedList<Name>, y: TypedList<Name>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_typed_list_variable_clone (x: TypedList<Variable>) { x.clone().d() } { x.d() }
c20_typed_list_variable_eq (x: TypedList<Variable>, y: TypedList<Variable>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_typed_list_variable_ne (x: TypedList<Variable>, y: TypedList<Variable>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_function_typed_atomic_function_skeleton_clone (x: FunctionTyped<AtomicFunctionSkeleton>) { x.clone().d() } { x.d() }
c20_function_typed_atomic_function_skeleton_eq (x: FunctionTyped<AtomicFunctionSkeleton>, y: FunctionTyped<AtomicFunctionSkeleton>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_function_typed_atomic_function_skeleton_ne (x: FunctionTyped<AtomicFunctionSkeleton>, y: FunctionTyped<AtomicFunctionSkeleton>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_function_typed_list_atomic_function_skeleton_clone (x: FunctionTypedList<AtomicFunctionSkeleton>) { x.clone().d() } { x.d() }
c20_function_typed_list_atomic_function_skeleton_eq (x: FunctionTypedList<AtomicFunctionSkeleton>, y: FunctionTypedList<AtomicFunctionSkeleton>) { b(x == y) } { b(same(&x.d(), &y.d())) }
c20_function_typed_list_atomic_function_skeleton_ne (x: FunctionTypedList<AtomicFunctionSkeleton>, y: FunctionTypedList<AtomicFunctionSkeleton>) { b(x != y) } { b(!same(&x.d(), &y.d())) }
c20_action_symbol_hash (x: ActionSymbol, y: ActionSymbol) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_durative_action_symbol_hash (x: DurativeActionSymbol, y: DurativeActionSymbol) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_function_symbol_hash (x: FunctionSymbol, y: FunctionSymbol) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_predicate_hash (x: Predicate, y: Predicate) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_primitive_type_hash (x: PrimitiveType, y: PrimitiveType) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_variable_hash (x: Variable, y: Variable) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_requirement_hash (x: Requirement, y: Requirement) { b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y))) } { b(true) }
c20_requirement_hash_as_text (x: Requirement) { hashed(&x) } { hashed::<str>(Borrow::<str>::borrow(&x)) }
c20_requirement_cmp (x: Requirement, y: Requirement) { ordering(x.cmp(&y)) } { ordering(Borrow::<str>::borrow(&x).cmp(Borrow::<str>::borrow(&y))) }
c20_requirement_partial_cmp (x: Requirement, y: Requirement) { match x.partial_cmp(&y) { Some(o) => node("some", [ordering(o)]), None => node("none", []) } } { node("some", [ordering(x.cmp(&y))]) }
c18_unwrap_name (s: &'static str) { match pddl::parsers::parse_name(pddl::parsers::Span::new(s)) { Ok((r, v)) => { let w: pddl::parsers::ParseResult<Name> = Ok((r, v)); node("ok", [UnwrapValue::unwrap_value(w).d()]) }, Err(_) => node("err", []) } } { match pddl::parsers::parse_name(pddl::parsers::Span::new(s)) { Ok((_, v)) => node("ok", [v.d()]), Err(_) => node("err", []) } }
c18_is_value_name (s: &'static str, v: Name) { b(pddl::parsers::parse_name(pddl::parsers::Span::new(s)).is_value(v)) } { match pddl::parsers::parse_name(pddl::parsers::Span::new(s)) { Ok((_, w)) => b(same(&w.d(), &v.d())), Err(_) => b(false) } }
c18_unwrap_require_key (s: &'static str) { match pddl::parsers::parse_require_key(pddl::parsers::Span::new(s)) { Ok((r, v)) => { let w: pddl::parsers::ParseResult<Requirement> = Ok((r, v)); node("ok", [UnwrapValue::unwrap_value(w).d()]) }, Err(_) => node("err", []) } } { match pddl::parsers::parse_require_key(pddl::parsers::Span::new(s)) { Ok((_, v)) => node("ok", [v.d()]), Err(_) => node("err", []) } }
c18_is_value_require_key (s: &'static str, v: Requirement) { b(pddl::parsers::parse_require_key(pddl::parsers::Span::new(s)).is_value(v)) } { match pddl::parsers::parse_require_key(pddl::parsers::Span::new(s)) { Ok((_, w)) => b(same(&w.d(), &v.d())), Err(_) => b(false) } }
c18_unwrap_term (s: &'static str) { match pddl::parsers::parse_term(pddl::parsers::Span::new(s)) { Ok((r, v)) => { let w: pddl::parsers::ParseResult<Term> = Ok((r, v)); node("ok", [UnwrapValue::unwrap_value(w).d()]) }, Err(_) => node("err", []) } } { match pddl::parsers::parse_term(pddl::parsers::Span::new(s)) { Ok((_, v)) => node("ok", [v.d()]), Err(_) => node("err", []) } }
c18_is_value_term (s: &'static str, v: Term) { b(pddl::parsers::parse_term(pddl::parsers::Span::new(s)).is_value(v)) } { match pddl::parsers::parse_term(pddl::parsers::Span::new(s)) { Ok((_, w)) => b(same(&w.d(), &v.d())), Err(_) => b(false) } }
        }
    };
}
