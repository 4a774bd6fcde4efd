//! Random values of the library's types (native runs of the equations).
use pddl::*;

pub struct Rng(pub u64, pub u64, pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed | 1, 0, 0)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.1 += 1;
        let x = self.0.wrapping_mul(0x2545F4914F6CDD1D);
        if self.1 == self.2 { x.rotate_left(17) ^ 0x5555_5555_1234_5678 } else { x }
    }
    /// sometimes the next argument is a near copy of the first: the same choices but for one
    pub fn argument(&mut self, start: u64) {
        if self.1 > 0 && self.below(3) != 0 {
            let n = self.1 - 1;
            self.2 = 1 + self.next() % (n + 1);
            self.0 = start;
            self.1 = 0;
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 33) as usize) % n
    }
}

pub trait Make: Sized {
    fn make(r: &mut Rng, d: u32) -> Self;
}
pub fn m<X: Make>(r: &mut Rng, d: u32) -> X {
    X::make(r, d.saturating_sub(1))
}
const WORDS: &[&str] = &[
    "", "object", "number", "x", "a", "b", "Object", "objects", "assign", "change", "Assign", "assign ", "scale-up", "scale_up", "scale-down",
    "increase", "decrease", ">", "<", "=", ">=", "<=", "=>", "=<", "*", "+", "-", "/", "all", "al", "start", "end", "minimize", "maximize",
    ":strips", "strips", ":typing", ":negative-preconditions", ":disjunctive-preconditions", ":equality", ":existential-preconditions",
    ":universal-preconditions", ":quantified-preconditions", ":conditional-effects", ":fluents", ":numeric-fluents", ":object-fluents",
    ":adl", ":durative-actions", ":duration-inequalities", ":continuous-effects", ":derived-predicates", ":timed-initial-literals",
    ":preferences", ":constraints", ":action-costs", "1", "1.5", "-1", "0.1", "16777217", "3.4028235e38", "3.5e38", "inf", "nan", "1e3", ".5", "5.",
    "ab", "ba", "aa", "z", "undefined", "total-time", "\u{e9}", "stra\u{df}e", "o", "numbe", "a-b", "a_b",
];
/// words and lengths that occur in the code under suspicion
pub static MINED: std::sync::OnceLock<(Vec<&'static str>, Vec<usize>)> = std::sync::OnceLock::new();
fn keep(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
impl Make for &'static str {
    fn make(r: &mut Rng, _: u32) -> Self {
        let mined = MINED.get();
        let k = r.below(16);
        let mut w = WORDS[r.below(WORDS.len())];
        if let Some((words, lengths)) = mined {
            if k < 8 && !words.is_empty() {
                w = words[r.below(words.len())];
            }
            if k == 8 && !lengths.is_empty() {
                let n = (lengths[r.below(lengths.len())] + r.below(3)).saturating_sub(1);
                return keep((0..n).map(|_| if r.below(9) == 0 { 'b' } else { 'a' }).collect());
            }
        }
        match k {
            9 => {
                let n = r.below(12);
                keep((0..n).map(|_| b"abcdeXYZ01-_:. "[r.below(15)] as char).collect())
            }
            // a word with something in front, behind, or in another letter case
            0 | 10 => {
                let t = WORDS[r.below(WORDS.len())];
                keep(match r.below(8) {
                    5 => w.chars().take(w.chars().count().saturating_sub(1)).collect(),
                    6 => format!("{w}{}", b"_-0a: "[r.below(6)] as char),
                    7 => w.chars().chain(w.chars().last()).collect(),
                    0 => format!("{w}{t}"),
                    1 => format!("{t}{w}"),
                    2 => format!("{w}-{t}"),
                    3 => w.to_uppercase(),
                    _ => w.chars().skip(1).collect(),
                })
            }
            _ => w,
        }
    }
}
impl Make for String {
    fn make(r: &mut Rng, d: u32) -> Self {
        <&str>::make(r, d).to_string()
    }
}
impl Make for f32 {
    fn make(r: &mut Rng, _: u32) -> Self {
        const S: [f32; 14] = [0.0, -0.0, 1.0, -1.0, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, 16777216.0, f32::INFINITY,
            f32::NEG_INFINITY, f32::NAN, 255.0];
        match r.below(3) { 0 => f32::from_bits(r.next() as u32), _ => S[r.below(14)] }
    }
}
impl Make for f64 {
    fn make(r: &mut Rng, d: u32) -> Self {
        match r.below(4) { 0 => f64::from_bits(r.next()), 1 => 1e39, 2 => 0.1, _ => f32::make(r, d) as f64 }
    }
}
impl Make for bool {
    fn make(r: &mut Rng, _: u32) -> Self {
        r.below(2) == 0
    }
}
macro_rules! ints { ($($t:ty)*) => { $(impl Make for $t { fn make(r: &mut Rng, _: u32) -> Self {
    match r.below(4) { 0 => r.next() as $t, 1 => <$t>::MAX, 2 => <$t>::MIN, _ => r.below(4) as $t } } })* } }
ints!(i8 u8 i16 u16 i32 u32 u64 usize);
impl<X: Make> Make for Option<X> {
    fn make(r: &mut Rng, d: u32) -> Self {
        if r.below(3) == 0 { None } else { Some(X::make(r, d)) }
    }
}
impl<X: Make> Make for Vec<X> {
    fn make(r: &mut Rng, d: u32) -> Self {
        let n = [0, 1, 1, 2, 2, 3, 4, 5][r.below(8)];
        let mut last = r.0;
        let mut v: Vec<X> = (0..if d == 0 { n.min(1) } else { n })
            .map(|_| {
                if r.below(6) == 0 {
                    r.0 = last; // the element before once more
                }
                last = r.0;
                X::make(r, d)
            })
            .collect();
        // a near copy of a list can be a permutation of it
        match r.below(6) {
            0 => v.reverse(),
            1 if n > 1 => v.rotate_left(1),
            _ => {}
        }
        v
    }
}
impl<X: Make> Make for Box<X> {
    fn make(r: &mut Rng, d: u32) -> Self {
        Box::new(X::make(r, d))
    }
}
impl<A: Make, B: Make> Make for (A, B) {
    fn make(r: &mut Rng, d: u32) -> Self {
        (A::make(r, d), B::make(r, d))
    }
}
impl<A: Make, B: Make, C: Make> Make for (A, B, C) {
    fn make(r: &mut Rng, d: u32) -> Self {
        (A::make(r, d), B::make(r, d), C::make(r, d))
    }
}
/// the first alternative ends the recursion
macro_rules! mk {
    ($t:ty, $r:ident, $d:ident, $($e:expr),+ $(,)?) => {
        impl Make for $t {
            fn make($r: &mut Rng, $d: u32) -> Self {
                let n = [$({ let _ = stringify!($e); 1usize }),+].len();
                let k = if $d == 0 { 0 } else { $r.below(n) };
                let mut i = 0usize;
                $({ if i == k { return $e; } i += 1; })+
                let _ = i;
                unreachable!()
            }
        }
    };
}
macro_rules! plain { ($($t:ident: $($v:ident)+;)*) => { $(impl Make for $t { fn make(r: &mut Rng, _: u32) -> Self {
    let all = [$($t::$v),+]; let k = r.below(all.len()); all.into_iter().nth(k).unwrap() } })* } }
plain! {
    AssignOp: Assign ScaleUp ScaleDown Increase Decrease;
    AssignOpT: Increase Decrease;
    BinaryComp: GreaterThan LessThan Equal GreaterOrEqual LessThanOrEqual;
    BinaryOp: Multiplication Addition Subtraction Division;
    MultiOp: Multiplication Addition;
    DOp: Equal GreaterOrEqual LessThanOrEqual;
    Interval: All;
    Optimization: Minimize Maximize;
    TimeSpecifier: Start End;
    Requirement: Strips Typing NegativePreconditions DisjunctivePreconditions Equality ExistentialPreconditions UniversalPreconditions
        QuantifiedPreconditions ConditionalEffects Fluents NumericFluents ObjectFluents Adl DurativeActions DurationInequalities
        ContinuousEffects DerivedPredicates TimedInitialLiterals Preferences Constraints ActionCosts;
}
impl Make for Number {
    fn make(r: &mut Rng, d: u32) -> Self {
        loop {
            if let Ok(n) = Number::try_new(f32::make(r, d)) {
                return n;
            }
        }
    }
}
impl Make for Name {
    fn make(r: &mut Rng, d: u32) -> Self {
        let s = <&'static str>::make(r, d);
        match r.below(3) { 0 => Name::new_static(s), _ => Name::new(s) }
    }
}
macro_rules! texts { ($($t:ty)*) => { $(mk!($t, r, d, <$t>::new(Name::make(r, d)));)* } }
texts!(ActionSymbol DurativeActionSymbol FunctionSymbol Predicate PreferenceName PrimitiveType Variable);
mk!(Type, r, d, Type::Exactly(m(r, d)), Type::EitherOf(m(r, d)));
mk!(FunctionType, r, d, FunctionType::new(Type::make(r, d)));
impl<X: Make> Make for Typed<X> { fn make(r: &mut Rng, d: u32) -> Self { Typed::new(m(r, d), m(r, d)) } }
impl<X: Make> Make for FunctionTyped<X> { fn make(r: &mut Rng, d: u32) -> Self { FunctionTyped::new(m(r, d), m::<FunctionType>(r, d)) } }
impl<X: Make> Make for TypedList<X> { fn make(r: &mut Rng, d: u32) -> Self { TypedList::new(m(r, d)) } }
impl<X: Make> Make for FunctionTypedList<X> { fn make(r: &mut Rng, d: u32) -> Self { FunctionTypedList::new(m(r, d)) } }
mk!(Constants, r, d, Constants::new(m(r, d)));
mk!(Types, r, d, Types::new(m(r, d)));
mk!(Objects, r, d, Objects::new(m::<TypedList<Name>>(r, d)));
mk!(Functions, r, d, Functions::new(m(r, d)));
mk!(Requirements, r, d, Requirements::new(m::<Vec<Requirement>>(r, d)));
mk!(AtomicFormulaSkeleton, r, d, AtomicFormulaSkeleton::new(m(r, d), m(r, d)));
mk!(AtomicFunctionSkeleton, r, d, AtomicFunctionSkeleton::new(m(r, d), m(r, d)));
mk!(PredicateDefinitions, r, d, PredicateDefinitions::new(m::<Vec<AtomicFormulaSkeleton>>(r, d)));
mk!(Term, r, d, Term::Name(m(r, d)), Term::Variable(m(r, d)), Term::Function(m(r, d)));
mk!(FunctionTerm, r, d, FunctionTerm::new(m(r, d), m::<Vec<Term>>(r, d)));
mk!(BasicFunctionTerm, r, d, BasicFunctionTerm::new(m(r, d), m::<Vec<Name>>(r, d)));
impl<X: Make> Make for EqualityAtomicFormula<X> { fn make(r: &mut Rng, d: u32) -> Self { EqualityAtomicFormula::new(m(r, d), m(r, d)) } }
impl<X: Make> Make for PredicateAtomicFormula<X> { fn make(r: &mut Rng, d: u32) -> Self { PredicateAtomicFormula::new(m(r, d), m(r, d)) } }
impl<X: Make> Make for AtomicFormula<X> { fn make(r: &mut Rng, d: u32) -> Self {
    if r.below(3) == 0 { AtomicFormula::Equality(m(r, d)) } else { AtomicFormula::Predicate(m(r, d)) } } }
impl<X: Make> Make for Literal<X> { fn make(r: &mut Rng, d: u32) -> Self {
    if r.below(2) == 0 { Literal::AtomicFormula(m(r, d)) } else { Literal::NotAtomicFormula(m(r, d)) } } }
mk!(FHead, r, d, FHead::Simple(m(r, d)), FHead::WithTerms(m(r, d), m(r, d)));
mk!(FExp, r, d, FExp::Number(m(r, d)), FExp::Function(m(r, d)), FExp::Negative(m(r, d)), FExp::BinaryOp(m(r, d), m(r, d), m(r, d)),
    FExp::MultiOp(m(r, d), m(r, d), m(r, d)));
mk!(FExpDa, r, d, FExpDa::Duration, FExpDa::FExp(m(r, d)), FExpDa::Negative(m(r, d)), FExpDa::BinaryOp(m(r, d), m(r, d), m(r, d)),
    FExpDa::MultiOp(m(r, d), m(r, d), m(r, d)));
mk!(FExpT, r, d, FExpT::Now, FExpT::Scaled(m(r, d)));
mk!(FComp, r, d, FComp::new(m(r, d), m::<FExp>(r, d), m::<FExp>(r, d)));
mk!(FAssignDa, r, d, FAssignDa::new(m(r, d), m(r, d), m(r, d)));
mk!(MetricFExp, r, d, MetricFExp::TotalTime, MetricFExp::Number(m(r, d)), MetricFExp::Function(m(r, d), m(r, d)), MetricFExp::IsViolated(m(r, d)),
    MetricFExp::Negative(m(r, d)), MetricFExp::BinaryOp(m(r, d), m(r, d), m(r, d)), MetricFExp::MultiOp(m(r, d), m(r, d), m(r, d)));
mk!(MetricSpec, r, d, MetricSpec::new(m(r, d), m(r, d)));
mk!(LengthSpec, r, d, LengthSpec::new(m(r, d), m(r, d)));
mk!(GoalDefinition, r, d, GoalDefinition::AtomicFormula(m(r, d)), GoalDefinition::Literal(m(r, d)), GoalDefinition::And(m(r, d)),
    GoalDefinition::Or(m(r, d)), GoalDefinition::Not(m(r, d)), GoalDefinition::Imply(m(r, d), m(r, d)), GoalDefinition::Exists(m(r, d), m(r, d)),
    GoalDefinition::ForAll(m(r, d), m(r, d)), GoalDefinition::FComp(m(r, d)));
mk!(Preference, r, d, Preference::new(m(r, d), m(r, d)));
mk!(PreferenceGD, r, d, PreferenceGD::Goal(m(r, d)), PreferenceGD::Preference(m(r, d)));
mk!(PreconditionGoalDefinition, r, d, PreconditionGoalDefinition::Preference(m(r, d)), PreconditionGoalDefinition::Forall(m(r, d), m(r, d)));
mk!(PreconditionGoalDefinitions, r, d, PreconditionGoalDefinitions::new(m(r, d)));
mk!(GoalDef, r, d, GoalDef::new(m(r, d)));
mk!(PEffect, r, d, PEffect::AtomicFormula(m(r, d)), PEffect::NotAtomicFormula(m(r, d)), PEffect::AssignNumericFluent(m(r, d), m(r, d), m(r, d)),
    PEffect::AssignObjectFluent(m(r, d), m(r, d)));
mk!(CEffect, r, d, CEffect::Effect(m(r, d)), CEffect::Forall(m(r, d)), CEffect::When(m(r, d)));
mk!(Effects, r, d, Effects::new_and(m(r, d)));
mk!(ForallCEffect, r, d, ForallCEffect::new(m(r, d), m::<Effects>(r, d)));
mk!(WhenCEffect, r, d, WhenCEffect::new(m(r, d), m::<ConditionalEffect>(r, d)));
mk!(ConditionalEffect, r, d, ConditionalEffect::Single(m(r, d)), ConditionalEffect::All(m(r, d)));
mk!(ConGD, r, d, ConGD::AtEnd(m(r, d)), ConGD::And(m(r, d)), ConGD::Forall(m(r, d), m(r, d)), ConGD::Always(m(r, d)), ConGD::Sometime(m(r, d)),
    ConGD::Within(m(r, d), m(r, d)), ConGD::AtMostOnce(m(r, d)), ConGD::SometimeAfter(m(r, d), m(r, d)), ConGD::SometimeBefore(m(r, d), m(r, d)),
    ConGD::AlwaysWithin(m(r, d), m(r, d), m(r, d)), ConGD::HoldDuring(m(r, d), m(r, d), m(r, d)), ConGD::HoldAfter(m(r, d), m(r, d)));
mk!(Con2GD, r, d, Con2GD::Goal(m(r, d)), Con2GD::Nested(m(r, d)));
mk!(PrefConGD, r, d, PrefConGD::Goal(m(r, d)), PrefConGD::Forall(m(r, d), m(r, d)), PrefConGD::Preference(m(r, d), m(r, d)));
mk!(PrefConGDs, r, d, PrefConGDs::new(m(r, d)));
mk!(DomainConstraintsDef, r, d, DomainConstraintsDef::new(m(r, d)));
mk!(ProblemConstraintsDef, r, d, ProblemConstraintsDef::new(m(r, d)));
mk!(DurationValue, r, d, DurationValue::Number(m(r, d)), DurationValue::FExp(m(r, d)));
mk!(SimpleDurationConstraint, r, d, SimpleDurationConstraint::Op(m(r, d), m(r, d)), SimpleDurationConstraint::At(m(r, d), m(r, d)));
mk!(DurationConstraint, r, d, DurationConstraint::Single(m(r, d)), DurationConstraint::All(m(r, d)));
mk!(TimedGD, r, d, TimedGD::At(m(r, d), m(r, d)), TimedGD::Over(m(r, d), m(r, d)));
mk!(PrefTimedGD, r, d, PrefTimedGD::Required(m(r, d)), PrefTimedGD::Preference(m(r, d), m(r, d)));
mk!(DurativeActionGoalDefinition, r, d, DurativeActionGoalDefinition::Timed(m(r, d)), DurativeActionGoalDefinition::And(m(r, d)),
    DurativeActionGoalDefinition::Forall(m(r, d), m(r, d)));
mk!(TimedEffect, r, d, TimedEffect::Conditional(m(r, d), m(r, d)), TimedEffect::NumericFluent(m(r, d), m(r, d)),
    TimedEffect::ContinuousEffect(m(r, d), m(r, d), m(r, d)));
mk!(DurativeActionEffect, r, d, DurativeActionEffect::Timed(m(r, d)), DurativeActionEffect::All(m(r, d)), DurativeActionEffect::Forall(m(r, d), m(r, d)),
    DurativeActionEffect::When(m(r, d), m(r, d)));
mk!(ActionDefinition, r, d, ActionDefinition::new(m(r, d), m(r, d), m(r, d), m(r, d)));
mk!(DurativeActionDefinition, r, d, DurativeActionDefinition::new(m(r, d), m(r, d), m(r, d), m(r, d), m(r, d)));
mk!(DerivedPredicate, r, d, DerivedPredicate::new(m(r, d), m::<GoalDefinition>(r, d)));
mk!(StructureDef, r, d, StructureDef::Action(m(r, d)), StructureDef::DurativeAction(m(r, d)), StructureDef::Derived(m(r, d)));
mk!(StructureDefs, r, d, StructureDefs::new(m::<Vec<StructureDef>>(r, d)));
mk!(InitElement, r, d, InitElement::Literal(m(r, d)), InitElement::At(m(r, d), m(r, d)), InitElement::IsValue(m(r, d), m(r, d)),
    InitElement::IsObject(m(r, d), m(r, d)));
mk!(InitElements, r, d, InitElements::new(m(r, d)));
mk!(Timeless, r, d, Timeless::new(m(r, d)));
mk!(Domain, r, d, Domain::builder(m(r, d), m(r, d)).with_extends(m::<Vec<Name>>(r, d)).with_requirements(m::<Requirements>(r, d))
    .with_types(m::<Types>(r, d)).with_constants(m::<Constants>(r, d)).with_predicates(m::<PredicateDefinitions>(r, d))
    .with_functions(m::<Functions>(r, d)).with_constraints(m(r, d)).with_timeless(m(r, d)));
mk!(Problem, r, d, Problem::new(m(r, d), m(r, d), m(r, d), m(r, d), m(r, d), m(r, d), m(r, d), m(r, d), m(r, d)));
