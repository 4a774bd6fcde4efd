//! one monomorphic root per public parser function: the anchor of its contract
use pddl::parsers::{self, ParseResult, Span};
use pddl::*;

pub fn p_action_def(i: Span<'_>) -> ParseResult<'_, ActionDefinition> {
    parsers::parse_action_def(i)
}
pub fn p_action_symbol(i: Span<'_>) -> ParseResult<'_, ActionSymbol> {
    parsers::parse_action_symbol(i)
}
pub fn p_assign_op(i: Span<'_>) -> ParseResult<'_, AssignOp> {
    parsers::parse_assign_op(i)
}
pub fn p_assign_op_t(i: Span<'_>) -> ParseResult<'_, AssignOpT> {
    parsers::parse_assign_op_t(i)
}
pub fn p_atomic_formula_skeleton(i: Span<'_>) -> ParseResult<'_, AtomicFormulaSkeleton> {
    parsers::parse_atomic_formula_skeleton(i)
}
pub fn p_atomic_function_skeleton(i: Span<'_>) -> ParseResult<'_, AtomicFunctionSkeleton> {
    parsers::parse_atomic_function_skeleton(i)
}
pub fn p_basic_function_term(i: Span<'_>) -> ParseResult<'_, BasicFunctionTerm> {
    parsers::parse_basic_function_term(i)
}
pub fn p_binary_comp(i: Span<'_>) -> ParseResult<'_, BinaryComp> {
    parsers::parse_binary_comp(i)
}
pub fn p_binary_op(i: Span<'_>) -> ParseResult<'_, BinaryOp> {
    parsers::parse_binary_op(i)
}
pub fn p_c_effect(i: Span<'_>) -> ParseResult<'_, CEffect> {
    parsers::parse_c_effect(i)
}
pub fn p_forall_c_effect(i: Span<'_>) -> ParseResult<'_, ForallCEffect> {
    parsers::parse_forall_c_effect(i)
}
pub fn p_when_c_effect(i: Span<'_>) -> ParseResult<'_, WhenCEffect> {
    parsers::parse_when_c_effect(i)
}
pub fn p_ignore_eol_comment(i: Span<'_>) -> ParseResult<'_, ()> {
    parsers::ignore_eol_comment(i)
}
pub fn p_con_gd(i: Span<'_>) -> ParseResult<'_, ConGD> {
    parsers::parse_con_gd(i)
}
pub fn p_cond_effect(i: Span<'_>) -> ParseResult<'_, ConditionalEffect> {
    parsers::parse_cond_effect(i)
}
pub fn p_constants_def(i: Span<'_>) -> ParseResult<'_, Constants> {
    parsers::parse_constants_def(i)
}
pub fn p_d_op(i: Span<'_>) -> ParseResult<'_, DOp> {
    parsers::parse_d_op(i)
}
pub fn p_d_value(i: Span<'_>) -> ParseResult<'_, DurationValue> {
    parsers::parse_d_value(i)
}
pub fn p_da_def(i: Span<'_>) -> ParseResult<'_, DurativeActionDefinition> {
    parsers::parse_da_def(i)
}
pub fn p_da_effect(i: Span<'_>) -> ParseResult<'_, DurativeActionEffect> {
    parsers::parse_da_effect(i)
}
pub fn p_da_gd(i: Span<'_>) -> ParseResult<'_, DurativeActionGoalDefinition> {
    parsers::parse_da_gd(i)
}
pub fn p_da_symbol(i: Span<'_>) -> ParseResult<'_, DurativeActionSymbol> {
    parsers::parse_da_symbol(i)
}
pub fn p_derived_predicate(i: Span<'_>) -> ParseResult<'_, DerivedPredicate> {
    parsers::parse_derived_predicate(i)
}
pub fn p_domain(i: Span<'_>) -> ParseResult<'_, Domain> {
    parsers::parse_domain(i)
}
pub fn p_domain_constraints_def(i: Span<'_>) -> ParseResult<'_, DomainConstraintsDef> {
    parsers::parse_domain_constraints_def(i)
}
pub fn p_duration_constraint(i: Span<'_>) -> ParseResult<'_, Option<DurationConstraint>> {
    parsers::parse_duration_constraint(i)
}
pub fn p_effect(i: Span<'_>) -> ParseResult<'_, Effects> {
    parsers::parse_effect(i)
}
pub fn p_f_assign_da(i: Span<'_>) -> ParseResult<'_, FAssignDa> {
    parsers::parse_f_assign_da(i)
}
pub fn p_f_comp(i: Span<'_>) -> ParseResult<'_, FComp> {
    parsers::parse_f_comp(i)
}
pub fn p_f_exp(i: Span<'_>) -> ParseResult<'_, FExp> {
    parsers::parse_f_exp(i)
}
pub fn p_f_exp_da(i: Span<'_>) -> ParseResult<'_, FExpDa> {
    parsers::parse_f_exp_da(i)
}
pub fn p_f_exp_t(i: Span<'_>) -> ParseResult<'_, FExpT> {
    parsers::parse_f_exp_t(i)
}
pub fn p_f_head(i: Span<'_>) -> ParseResult<'_, FHead> {
    parsers::parse_f_head(i)
}
pub fn p_function_symbol(i: Span<'_>) -> ParseResult<'_, FunctionSymbol> {
    parsers::parse_function_symbol(i)
}
pub fn p_function_term(i: Span<'_>) -> ParseResult<'_, FunctionTerm> {
    parsers::parse_function_term(i)
}
pub fn p_function_type(i: Span<'_>) -> ParseResult<'_, FunctionType> {
    parsers::parse_function_type(i)
}
pub fn p_functions_def(i: Span<'_>) -> ParseResult<'_, Functions> {
    parsers::parse_functions_def(i)
}
pub fn p_gd(i: Span<'_>) -> ParseResult<'_, GoalDefinition> {
    parsers::parse_gd(i)
}
pub fn p_problem_goal_def(i: Span<'_>) -> ParseResult<'_, GoalDef> {
    parsers::parse_problem_goal_def(i)
}
pub fn p_problem_init_def(i: Span<'_>) -> ParseResult<'_, InitElements> {
    parsers::parse_problem_init_def(i)
}
pub fn p_init_el(i: Span<'_>) -> ParseResult<'_, InitElement> {
    parsers::parse_init_el(i)
}
pub fn p_interval(i: Span<'_>) -> ParseResult<'_, Interval> {
    parsers::parse_interval(i)
}
pub fn p_problem_length_spec(i: Span<'_>) -> ParseResult<'_, LengthSpec> {
    parsers::parse_problem_length_spec(i)
}
pub fn p_metric_f_exp(i: Span<'_>) -> ParseResult<'_, MetricFExp> {
    parsers::parse_metric_f_exp(i)
}
pub fn p_problem_metric_spec(i: Span<'_>) -> ParseResult<'_, MetricSpec> {
    parsers::parse_problem_metric_spec(i)
}
pub fn p_multi_op(i: Span<'_>) -> ParseResult<'_, MultiOp> {
    parsers::parse_multi_op(i)
}
pub fn p_name(i: Span<'_>) -> ParseResult<'_, Name> {
    parsers::parse_name(i)
}
pub fn p_number(i: Span<'_>) -> ParseResult<'_, Number> {
    parsers::parse_number(i)
}
pub fn p_problem_objects_declaration(i: Span<'_>) -> ParseResult<'_, Objects> {
    parsers::parse_problem_objects_declaration(i)
}
pub fn p_optimization(i: Span<'_>) -> ParseResult<'_, Optimization> {
    parsers::parse_optimization(i)
}
pub fn p_p_effect(i: Span<'_>) -> ParseResult<'_, PEffect> {
    parsers::parse_p_effect(i)
}
pub fn p_pre_gd(i: Span<'_>) -> ParseResult<'_, PreconditionGoalDefinitions> {
    parsers::parse_pre_gd(i)
}
pub fn p_predicate(i: Span<'_>) -> ParseResult<'_, Predicate> {
    parsers::parse_predicate(i)
}
pub fn p_predicates_def(i: Span<'_>) -> ParseResult<'_, PredicateDefinitions> {
    parsers::parse_predicates_def(i)
}
pub fn p_pref_con_gd(i: Span<'_>) -> ParseResult<'_, PrefConGDs> {
    parsers::parse_pref_con_gd(i)
}
pub fn p_pref_gd(i: Span<'_>) -> ParseResult<'_, PreferenceGD> {
    parsers::parse_pref_gd(i)
}
pub fn p_pref_name(i: Span<'_>) -> ParseResult<'_, PreferenceName> {
    parsers::parse_pref_name(i)
}
pub fn p_pref_timed_gd(i: Span<'_>) -> ParseResult<'_, PrefTimedGD> {
    parsers::parse_pref_timed_gd(i)
}
pub fn p_primitive_type(i: Span<'_>) -> ParseResult<'_, PrimitiveType> {
    parsers::parse_primitive_type(i)
}
pub fn p_problem(i: Span<'_>) -> ParseResult<'_, Problem> {
    parsers::parse_problem(i)
}
pub fn p_problem_constraints_def(i: Span<'_>) -> ParseResult<'_, ProblemConstraintsDef> {
    parsers::parse_problem_constraints_def(i)
}
pub fn p_require_def(i: Span<'_>) -> ParseResult<'_, Requirements> {
    parsers::parse_require_def(i)
}
pub fn p_require_key(i: Span<'_>) -> ParseResult<'_, Requirement> {
    parsers::parse_require_key(i)
}
pub fn p_simple_duration_constraint(i: Span<'_>) -> ParseResult<'_, SimpleDurationConstraint> {
    parsers::parse_simple_duration_constraint(i)
}
pub fn p_structure_def(i: Span<'_>) -> ParseResult<'_, StructureDef> {
    parsers::parse_structure_def(i)
}
pub fn p_term(i: Span<'_>) -> ParseResult<'_, Term> {
    parsers::parse_term(i)
}
pub fn p_time_specifier(i: Span<'_>) -> ParseResult<'_, TimeSpecifier> {
    parsers::parse_time_specifier(i)
}
pub fn p_timed_effect(i: Span<'_>) -> ParseResult<'_, TimedEffect> {
    parsers::parse_timed_effect(i)
}
pub fn p_timed_gd(i: Span<'_>) -> ParseResult<'_, TimedGD> {
    parsers::parse_timed_gd(i)
}
pub fn p_timeless_def(i: Span<'_>) -> ParseResult<'_, Timeless> {
    parsers::parse_timeless_def(i)
}
pub fn p_type(i: Span<'_>) -> ParseResult<'_, Type> {
    parsers::parse_type(i)
}
pub fn p_types_def(i: Span<'_>) -> ParseResult<'_, Types> {
    parsers::parse_types_def(i)
}
pub fn p_variable(i: Span<'_>) -> ParseResult<'_, Variable> {
    parsers::parse_variable(i)
}
pub fn p_con2_gd(i: Span<'_>) -> ParseResult<'_, Con2GD> {
    <Con2GD as Parser>::parse(i)
}
