//! Reads a parsed value through the public accessors into a plain tree.
//! The same code is executed symbolically (to state contracts) and natively (to replay witnesses).
//! Generated by gen_dump.py.
use pddl::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Node(&'static str, Vec<T>),
    Text(String),
    Num(f32),
    U64(u64),
    List(Vec<T>),
}

/// the four constructors below are the observation points of the symbolic execution
pub fn node<const N: usize>(label: &'static str, kids: [T; N]) -> T {
    T::Node(label, kids.into_iter().collect())
}
pub fn text(s: &str) -> T {
    T::Text(s.to_string())
}
pub fn num(x: f32) -> T {
    T::Num(x)
}
pub fn int(x: u64) -> T {
    T::U64(x)
}
pub fn list<X: Dump>(xs: &[X]) -> T {
    T::List(xs.iter().map(|x| x.d()).collect())
}

pub trait Dump {
    fn d(&self) -> T;
}

impl<X: Dump> Dump for Box<X> {
    fn d(&self) -> T {
        (**self).d()
    }
}
/// booleans, and equality of two readings (the reading of a number is the number)
pub fn b(x: bool) -> T {
    if x {
        node("true", [])
    } else {
        node("false", [])
    }
}
pub fn same(x: &T, y: &T) -> bool {
    x == y
}
impl Dump for bool {
    fn d(&self) -> T {
        b(*self)
    }
}
impl Dump for String {
    fn d(&self) -> T {
        text(self)
    }
}
impl Dump for str {
    fn d(&self) -> T {
        text(self)
    }
}
impl Dump for usize {
    fn d(&self) -> T {
        int(*self as u64)
    }
}
impl Dump for f32 {
    fn d(&self) -> T {
        num(*self)
    }
}
impl<X: Dump, E> Dump for Result<X, E> {
    fn d(&self) -> T {
        match self {
            Ok(x) => node("ok", [x.d()]),
            Err(_) => node("err", []),
        }
    }
}
impl<X: Dump, Y: Dump> Dump for (X, Y) {
    fn d(&self) -> T {
        node("pair", [self.0.d(), self.1.d()])
    }
}
impl<X: Dump> Dump for [X] {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for std::cmp::Ordering {
    fn d(&self) -> T {
        match self {
            std::cmp::Ordering::Less => node("less", []),
            std::cmp::Ordering::Equal => node("equal", []),
            std::cmp::Ordering::Greater => node("greater", []),
        }
    }
}
impl<X: Dump + ?Sized> Dump for &X {
    fn d(&self) -> T {
        (**self).d()
    }
}
impl<X: Dump> Dump for Option<X> {
    fn d(&self) -> T {
        match self {
            Some(x) => node("some", [x.d()]),
            None => node("none", []),
        }
    }
}
impl<X: Dump> Dump for Vec<X> {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for () {
    fn d(&self) -> T {
        node("unit", [])
    }
}
impl Dump for u64 {
    fn d(&self) -> T {
        int(*self)
    }
}
impl Dump for Number {
    fn d(&self) -> T {
        num(**self)
    }
}
impl Dump for Name {
    fn d(&self) -> T {
        text(self.as_ref())
    }
}
impl Dump for PrimitiveType {
    fn d(&self) -> T {
        text(self.as_ref())
    }
}
impl Dump for ActionSymbol {
    fn d(&self) -> T {
        let n: &str = self.as_ref();
        text(n)
    }
}
impl Dump for DurativeActionSymbol {
    fn d(&self) -> T {
        let n: &str = self.as_ref();
        text(n)
    }
}
impl Dump for FunctionSymbol {
    fn d(&self) -> T {
        let n: &str = self.as_ref();
        text(n)
    }
}
impl Dump for Predicate {
    fn d(&self) -> T {
        let n: &str = self.as_ref();
        text(n)
    }
}
impl Dump for PreferenceName {
    fn d(&self) -> T {
        let n: &str = self.as_ref();
        text(n)
    }
}
impl Dump for Variable {
    fn d(&self) -> T {
        let n: &str = self.as_ref();
        text(n)
    }
}
impl Dump for AssignOp {
    fn d(&self) -> T {
        match self {
            AssignOp::Assign => node("AssignOp.Assign", []),
            AssignOp::ScaleUp => node("AssignOp.ScaleUp", []),
            AssignOp::ScaleDown => node("AssignOp.ScaleDown", []),
            AssignOp::Increase => node("AssignOp.Increase", []),
            AssignOp::Decrease => node("AssignOp.Decrease", []),
        }
    }
}
impl Dump for AssignOpT {
    fn d(&self) -> T {
        match self {
            AssignOpT::Increase => node("AssignOpT.Increase", []),
            AssignOpT::Decrease => node("AssignOpT.Decrease", []),
        }
    }
}
impl Dump for BinaryComp {
    fn d(&self) -> T {
        match self {
            BinaryComp::GreaterThan => node("BinaryComp.GreaterThan", []),
            BinaryComp::LessThan => node("BinaryComp.LessThan", []),
            BinaryComp::Equal => node("BinaryComp.Equal", []),
            BinaryComp::GreaterOrEqual => node("BinaryComp.GreaterOrEqual", []),
            BinaryComp::LessThanOrEqual => node("BinaryComp.LessThanOrEqual", []),
        }
    }
}
impl Dump for BinaryOp {
    fn d(&self) -> T {
        match self {
            BinaryOp::Multiplication => node("BinaryOp.Multiplication", []),
            BinaryOp::Addition => node("BinaryOp.Addition", []),
            BinaryOp::Subtraction => node("BinaryOp.Subtraction", []),
            BinaryOp::Division => node("BinaryOp.Division", []),
        }
    }
}
impl Dump for MultiOp {
    fn d(&self) -> T {
        match self {
            MultiOp::Multiplication => node("MultiOp.Multiplication", []),
            MultiOp::Addition => node("MultiOp.Addition", []),
        }
    }
}
impl Dump for DOp {
    fn d(&self) -> T {
        match self {
            DOp::Equal => node("DOp.Equal", []),
            DOp::GreaterOrEqual => node("DOp.GreaterOrEqual", []),
            DOp::LessThanOrEqual => node("DOp.LessThanOrEqual", []),
        }
    }
}
impl Dump for Interval {
    fn d(&self) -> T {
        match self {
            Interval::All => node("Interval.All", []),
        }
    }
}
impl Dump for Optimization {
    fn d(&self) -> T {
        match self {
            Optimization::Minimize => node("Optimization.Minimize", []),
            Optimization::Maximize => node("Optimization.Maximize", []),
        }
    }
}
impl Dump for TimeSpecifier {
    fn d(&self) -> T {
        match self {
            TimeSpecifier::Start => node("TimeSpecifier.Start", []),
            TimeSpecifier::End => node("TimeSpecifier.End", []),
        }
    }
}
impl Dump for Requirement {
    fn d(&self) -> T {
        match self {
            Requirement::Strips => node("Requirement.Strips", []),
            Requirement::Typing => node("Requirement.Typing", []),
            Requirement::NegativePreconditions => node("Requirement.NegativePreconditions", []),
            Requirement::DisjunctivePreconditions => node("Requirement.DisjunctivePreconditions", []),
            Requirement::Equality => node("Requirement.Equality", []),
            Requirement::ExistentialPreconditions => node("Requirement.ExistentialPreconditions", []),
            Requirement::UniversalPreconditions => node("Requirement.UniversalPreconditions", []),
            Requirement::QuantifiedPreconditions => node("Requirement.QuantifiedPreconditions", []),
            Requirement::ConditionalEffects => node("Requirement.ConditionalEffects", []),
            Requirement::Fluents => node("Requirement.Fluents", []),
            Requirement::NumericFluents => node("Requirement.NumericFluents", []),
            Requirement::ObjectFluents => node("Requirement.ObjectFluents", []),
            Requirement::Adl => node("Requirement.Adl", []),
            Requirement::DurativeActions => node("Requirement.DurativeActions", []),
            Requirement::DurationInequalities => node("Requirement.DurationInequalities", []),
            Requirement::ContinuousEffects => node("Requirement.ContinuousEffects", []),
            Requirement::DerivedPredicates => node("Requirement.DerivedPredicates", []),
            Requirement::TimedInitialLiterals => node("Requirement.TimedInitialLiterals", []),
            Requirement::Preferences => node("Requirement.Preferences", []),
            Requirement::Constraints => node("Requirement.Constraints", []),
            Requirement::ActionCosts => node("Requirement.ActionCosts", []),
        }
    }
}
impl Dump for CEffect {
    fn d(&self) -> T {
        match self {
            CEffect::Effect(a) => node("CEffect.Effect", [a.d()]),
            CEffect::Forall(a) => node("CEffect.Forall", [a.d()]),
            CEffect::When(a) => node("CEffect.When", [a.d()]),
        }
    }
}
impl Dump for ConGD {
    fn d(&self) -> T {
        match self {
            ConGD::And(a) => node("ConGD.And", [list(a)]),
            ConGD::Forall(a, b) => node("ConGD.Forall", [a.d(), b.d()]),
            ConGD::AtEnd(a) => node("ConGD.AtEnd", [a.d()]),
            ConGD::Always(a) => node("ConGD.Always", [a.d()]),
            ConGD::Sometime(a) => node("ConGD.Sometime", [a.d()]),
            ConGD::Within(a, b) => node("ConGD.Within", [a.d(), b.d()]),
            ConGD::AtMostOnce(a) => node("ConGD.AtMostOnce", [a.d()]),
            ConGD::SometimeAfter(a, b) => node("ConGD.SometimeAfter", [a.d(), b.d()]),
            ConGD::SometimeBefore(a, b) => node("ConGD.SometimeBefore", [a.d(), b.d()]),
            ConGD::AlwaysWithin(a, b, c) => node("ConGD.AlwaysWithin", [a.d(), b.d(), c.d()]),
            ConGD::HoldDuring(a, b, c) => node("ConGD.HoldDuring", [a.d(), b.d(), c.d()]),
            ConGD::HoldAfter(a, b) => node("ConGD.HoldAfter", [a.d(), b.d()]),
        }
    }
}
impl Dump for Con2GD {
    fn d(&self) -> T {
        match self {
            Con2GD::Goal(a) => node("Con2GD.Goal", [a.d()]),
            Con2GD::Nested(a) => node("Con2GD.Nested", [a.d()]),
        }
    }
}
impl Dump for ConditionalEffect {
    fn d(&self) -> T {
        match self {
            ConditionalEffect::Single(a) => node("ConditionalEffect.Single", [a.d()]),
            ConditionalEffect::All(a) => node("ConditionalEffect.All", [list(a)]),
        }
    }
}
impl Dump for DurationValue {
    fn d(&self) -> T {
        match self {
            DurationValue::Number(a) => node("DurationValue.Number", [a.d()]),
            DurationValue::FExp(a) => node("DurationValue.FExp", [a.d()]),
        }
    }
}
impl Dump for DurativeActionEffect {
    fn d(&self) -> T {
        match self {
            DurativeActionEffect::Timed(a) => node("DurativeActionEffect.Timed", [a.d()]),
            DurativeActionEffect::All(a) => node("DurativeActionEffect.All", [list(a)]),
            DurativeActionEffect::Forall(a, b) => node("DurativeActionEffect.Forall", [a.d(), b.d()]),
            DurativeActionEffect::When(a, b) => node("DurativeActionEffect.When", [a.d(), b.d()]),
        }
    }
}
impl Dump for DurativeActionGoalDefinition {
    fn d(&self) -> T {
        match self {
            DurativeActionGoalDefinition::Timed(a) => node("DurativeActionGoalDefinition.Timed", [a.d()]),
            DurativeActionGoalDefinition::And(a) => node("DurativeActionGoalDefinition.And", [list(a)]),
            DurativeActionGoalDefinition::Forall(a, b) => node("DurativeActionGoalDefinition.Forall", [a.d(), b.d()]),
        }
    }
}
impl Dump for DurationConstraint {
    fn d(&self) -> T {
        match self {
            DurationConstraint::Single(a) => node("DurationConstraint.Single", [a.d()]),
            DurationConstraint::All(a) => node("DurationConstraint.All", [list(a)]),
        }
    }
}
impl Dump for FExp {
    fn d(&self) -> T {
        match self {
            FExp::Number(a) => node("FExp.Number", [a.d()]),
            FExp::Function(a) => node("FExp.Function", [a.d()]),
            FExp::Negative(a) => node("FExp.Negative", [a.d()]),
            FExp::BinaryOp(a, b, c) => node("FExp.BinaryOp", [a.d(), b.d(), c.d()]),
            FExp::MultiOp(a, b, c) => node("FExp.MultiOp", [a.d(), b.d(), list(c)]),
        }
    }
}
impl Dump for FExpDa {
    fn d(&self) -> T {
        match self {
            FExpDa::Assign(a, b, c) => node("FExpDa.Assign", [a.d(), b.d(), c.d()]),
            FExpDa::BinaryOp(a, b, c) => node("FExpDa.BinaryOp", [a.d(), b.d(), c.d()]),
            FExpDa::MultiOp(a, b, c) => node("FExpDa.MultiOp", [a.d(), b.d(), list(c)]),
            FExpDa::Negative(a) => node("FExpDa.Negative", [a.d()]),
            FExpDa::Duration => node("FExpDa.Duration", []),
            FExpDa::FExp(a) => node("FExpDa.FExp", [a.d()]),
        }
    }
}
impl Dump for FExpT {
    fn d(&self) -> T {
        match self {
            FExpT::Now => node("FExpT.Now", []),
            FExpT::Scaled(a) => node("FExpT.Scaled", [a.d()]),
        }
    }
}
impl Dump for FHead {
    fn d(&self) -> T {
        match self {
            FHead::Simple(a) => node("FHead.Simple", [a.d()]),
            FHead::WithTerms(a, b) => node("FHead.WithTerms", [a.d(), list(b)]),
        }
    }
}
impl Dump for GoalDefinition {
    fn d(&self) -> T {
        match self {
            GoalDefinition::AtomicFormula(a) => node("GoalDefinition.AtomicFormula", [a.d()]),
            GoalDefinition::Literal(a) => node("GoalDefinition.Literal", [a.d()]),
            GoalDefinition::And(a) => node("GoalDefinition.And", [list(a)]),
            GoalDefinition::Or(a) => node("GoalDefinition.Or", [list(a)]),
            GoalDefinition::Not(a) => node("GoalDefinition.Not", [a.d()]),
            GoalDefinition::Imply(a, b) => node("GoalDefinition.Imply", [a.d(), b.d()]),
            GoalDefinition::Exists(a, b) => node("GoalDefinition.Exists", [a.d(), b.d()]),
            GoalDefinition::ForAll(a, b) => node("GoalDefinition.ForAll", [a.d(), b.d()]),
            GoalDefinition::FComp(a) => node("GoalDefinition.FComp", [a.d()]),
        }
    }
}
impl Dump for InitElement {
    fn d(&self) -> T {
        match self {
            InitElement::Literal(a) => node("InitElement.Literal", [a.d()]),
            InitElement::At(a, b) => node("InitElement.At", [a.d(), b.d()]),
            InitElement::IsValue(a, b) => node("InitElement.IsValue", [a.d(), b.d()]),
            InitElement::IsObject(a, b) => node("InitElement.IsObject", [a.d(), b.d()]),
        }
    }
}
impl Dump for MetricFExp {
    fn d(&self) -> T {
        match self {
            MetricFExp::BinaryOp(a, b, c) => node("MetricFExp.BinaryOp", [a.d(), b.d(), c.d()]),
            MetricFExp::MultiOp(a, b, c) => node("MetricFExp.MultiOp", [a.d(), b.d(), list(c)]),
            MetricFExp::Negative(a) => node("MetricFExp.Negative", [a.d()]),
            MetricFExp::Number(a) => node("MetricFExp.Number", [a.d()]),
            MetricFExp::Function(a, b) => node("MetricFExp.Function", [a.d(), list(b)]),
            MetricFExp::TotalTime => node("MetricFExp.TotalTime", []),
            MetricFExp::IsViolated(a) => node("MetricFExp.IsViolated", [a.d()]),
        }
    }
}
impl Dump for PEffect {
    fn d(&self) -> T {
        match self {
            PEffect::AtomicFormula(a) => node("PEffect.AtomicFormula", [a.d()]),
            PEffect::NotAtomicFormula(a) => node("PEffect.NotAtomicFormula", [a.d()]),
            PEffect::AssignNumericFluent(a, b, c) => node("PEffect.AssignNumericFluent", [a.d(), b.d(), c.d()]),
            PEffect::AssignObjectFluent(a, b) => node("PEffect.AssignObjectFluent", [a.d(), b.d()]),
        }
    }
}
impl Dump for PreconditionGoalDefinition {
    fn d(&self) -> T {
        match self {
            PreconditionGoalDefinition::Preference(a) => node("PreconditionGoalDefinition.Preference", [a.d()]),
            PreconditionGoalDefinition::Forall(a, b) => node("PreconditionGoalDefinition.Forall", [a.d(), b.d()]),
        }
    }
}
impl Dump for PrefConGD {
    fn d(&self) -> T {
        match self {
            PrefConGD::Goal(a) => node("PrefConGD.Goal", [a.d()]),
            PrefConGD::Forall(a, b) => node("PrefConGD.Forall", [a.d(), b.d()]),
            PrefConGD::Preference(a, b) => node("PrefConGD.Preference", [a.d(), b.d()]),
        }
    }
}
impl Dump for PreferenceGD {
    fn d(&self) -> T {
        match self {
            PreferenceGD::Goal(a) => node("PreferenceGD.Goal", [a.d()]),
            PreferenceGD::Preference(a) => node("PreferenceGD.Preference", [a.d()]),
        }
    }
}
impl Dump for PrefTimedGD {
    fn d(&self) -> T {
        match self {
            PrefTimedGD::Required(a) => node("PrefTimedGD.Required", [a.d()]),
            PrefTimedGD::Preference(a, b) => node("PrefTimedGD.Preference", [a.d(), b.d()]),
        }
    }
}
impl Dump for SimpleDurationConstraint {
    fn d(&self) -> T {
        match self {
            SimpleDurationConstraint::Op(a, b) => node("SimpleDurationConstraint.Op", [a.d(), b.d()]),
            SimpleDurationConstraint::At(a, b) => node("SimpleDurationConstraint.At", [a.d(), b.d()]),
        }
    }
}
impl Dump for StructureDef {
    fn d(&self) -> T {
        match self {
            StructureDef::Action(a) => node("StructureDef.Action", [a.d()]),
            StructureDef::DurativeAction(a) => node("StructureDef.DurativeAction", [a.d()]),
            StructureDef::Derived(a) => node("StructureDef.Derived", [a.d()]),
        }
    }
}
impl Dump for Term {
    fn d(&self) -> T {
        match self {
            Term::Name(a) => node("Term.Name", [a.d()]),
            Term::Variable(a) => node("Term.Variable", [a.d()]),
            Term::Function(a) => node("Term.Function", [a.d()]),
        }
    }
}
impl Dump for TimedEffect {
    fn d(&self) -> T {
        match self {
            TimedEffect::Conditional(a, b) => node("TimedEffect.Conditional", [a.d(), b.d()]),
            TimedEffect::NumericFluent(a, b) => node("TimedEffect.NumericFluent", [a.d(), b.d()]),
            TimedEffect::ContinuousEffect(a, b, c) => node("TimedEffect.ContinuousEffect", [a.d(), b.d(), c.d()]),
        }
    }
}
impl Dump for TimedGD {
    fn d(&self) -> T {
        match self {
            TimedGD::At(a, b) => node("TimedGD.At", [a.d(), b.d()]),
            TimedGD::Over(a, b) => node("TimedGD.Over", [a.d(), b.d()]),
        }
    }
}
impl Dump for Type {
    fn d(&self) -> T {
        match self {
            Type::Exactly(a) => node("Type.Exactly", [a.d()]),
            Type::EitherOf(a) => node("Type.EitherOf", [list(a)]),
        }
    }
}
impl<X: Dump> Dump for Literal<X> {
    fn d(&self) -> T {
        match self {
            Literal::AtomicFormula(a) => node("Literal.AtomicFormula", [a.d()]),
            Literal::NotAtomicFormula(a) => node("Literal.NotAtomicFormula", [a.d()]),
        }
    }
}
impl<X: Dump> Dump for AtomicFormula<X> {
    fn d(&self) -> T {
        match self {
            AtomicFormula::Equality(a) => node("AtomicFormula.Equality", [a.d()]),
            AtomicFormula::Predicate(a) => node("AtomicFormula.Predicate", [a.d()]),
        }
    }
}
impl Dump for ActionDefinition {
    fn d(&self) -> T {
        node("ActionDefinition", [self.symbol().d(), self.parameters().d(), self.precondition().d(), self.effect().d()])
    }
}
impl Dump for DurativeActionDefinition {
    fn d(&self) -> T {
        node("DurativeActionDefinition", [self.symbol().d(), self.parameters().d(), self.duration().d(), self.condition().d(), self.effect().d()])
    }
}
impl<X: Dump> Dump for EqualityAtomicFormula<X> {
    fn d(&self) -> T {
        node("EqualityAtomicFormula", [self.first().d(), self.second().d()])
    }
}
impl<X: Dump> Dump for PredicateAtomicFormula<X> {
    fn d(&self) -> T {
        node("PredicateAtomicFormula", [self.predicate().d(), list(self.values())])
    }
}
impl Dump for AtomicFormulaSkeleton {
    fn d(&self) -> T {
        node("AtomicFormulaSkeleton", [self.predicate().d(), self.variables().d()])
    }
}
impl Dump for AtomicFunctionSkeleton {
    fn d(&self) -> T {
        node("AtomicFunctionSkeleton", [self.symbol().d(), self.variables().d()])
    }
}
impl Dump for BasicFunctionTerm {
    fn d(&self) -> T {
        node("BasicFunctionTerm", [self.symbol().d(), list(self.names())])
    }
}
impl Dump for FunctionTerm {
    fn d(&self) -> T {
        node("FunctionTerm", [self.symbol().d(), list(self.terms())])
    }
}
impl Dump for ForallCEffect {
    fn d(&self) -> T {
        node("ForallCEffect", [self.variables.d(), self.effects.d()])
    }
}
impl Dump for WhenCEffect {
    fn d(&self) -> T {
        node("WhenCEffect", [self.condition.d(), self.effect.d()])
    }
}
impl Dump for DerivedPredicate {
    fn d(&self) -> T {
        node("DerivedPredicate", [self.predicate().d(), self.expression().d()])
    }
}
impl Dump for FAssignDa {
    fn d(&self) -> T {
        node("FAssignDa", [self.operation().d(), self.function().d(), self.function_expr().d()])
    }
}
impl Dump for FComp {
    fn d(&self) -> T {
        node("FComp", [self.comparison().d(), self.first().d(), self.second().d()])
    }
}
impl Dump for MetricSpec {
    fn d(&self) -> T {
        node("MetricSpec", [self.optimization().d(), self.expression().d()])
    }
}
impl Dump for Preference {
    fn d(&self) -> T {
        node("Preference", [self.name().d(), self.goal().d()])
    }
}
impl<X: Dump> Dump for Typed<X> {
    fn d(&self) -> T {
        node("Typed", [self.value().d(), self.type_().d()])
    }
}
impl<X: Dump> Dump for FunctionTyped<X> {
    fn d(&self) -> T {
        node("FunctionTyped", [self.value_ref().d(), self.type_ref().d()])
    }
}
impl Dump for LengthSpec {
    fn d(&self) -> T {
        node("LengthSpec", [self.serial().d(), self.parallel().d()])
    }
}
impl Dump for Domain {
    fn d(&self) -> T {
        node("Domain", [self.name().d(), list(self.extends()), self.requirements().d(), self.types().d(), self.constants().d(), self.predicates().d(), self.functions().d(), self.constraints().d(), self.timeless().d(), self.structure().d()])
    }
}
impl Dump for Problem {
    fn d(&self) -> T {
        node("Problem", [self.name().d(), self.domain().d(), self.requirements().d(), self.objects().d(), self.init().d(), self.goals().d(), self.constraints().d(), self.metric_spec().d(), self.length_spec().d()])
    }
}
impl Dump for Constants {
    fn d(&self) -> T {
        (**self).d()
    }
}
impl Dump for Types {
    fn d(&self) -> T {
        (*self.values()).d()
    }
}
impl Dump for Objects {
    fn d(&self) -> T {
        (*self.values()).d()
    }
}
impl Dump for DomainConstraintsDef {
    fn d(&self) -> T {
        (*self.value()).d()
    }
}
impl Dump for GoalDef {
    fn d(&self) -> T {
        (*self.value()).d()
    }
}
impl Dump for ProblemConstraintsDef {
    fn d(&self) -> T {
        (*self.value()).d()
    }
}
impl Dump for Functions {
    fn d(&self) -> T {
        (*self.values()).d()
    }
}
impl Dump for FunctionType {
    fn d(&self) -> T {
        (**self).d()
    }
}
impl Dump for Timeless {
    fn d(&self) -> T {
        list(self.values())
    }
}
impl Dump for StructureDefs {
    fn d(&self) -> T {
        list(self.values())
    }
}
impl Dump for InitElements {
    fn d(&self) -> T {
        list(self.values())
    }
}
impl Dump for PredicateDefinitions {
    fn d(&self) -> T {
        list(self.values())
    }
}
impl Dump for Requirements {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for Effects {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for PreconditionGoalDefinitions {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for PrefConGDs {
    fn d(&self) -> T {
        list(self)
    }
}
impl<X: Dump> Dump for TypedList<X> {
    fn d(&self) -> T {
        list(self.value())
    }
}
impl<X: Dump> Dump for FunctionTypedList<X> {
    fn d(&self) -> T {
        list(self.values())
    }
}
