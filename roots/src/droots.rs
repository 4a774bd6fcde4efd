//! Generated by gen_dump.py: one dump root per parser result, and the replay dispatch.
use crate::dump::{Dump, T};
use crate::proots::*;
use crate::troots::*;
use pddl::parsers::Span;
use pddl::*;

pub fn d_action_def(x: &ActionDefinition) -> T {
    x.d()
}
pub fn d_action_symbol(x: &ActionSymbol) -> T {
    x.d()
}
pub fn d_assign_op(x: &AssignOp) -> T {
    x.d()
}
pub fn d_assign_op_t(x: &AssignOpT) -> T {
    x.d()
}
pub fn d_atomic_formula_skeleton(x: &AtomicFormulaSkeleton) -> T {
    x.d()
}
pub fn d_atomic_function_skeleton(x: &AtomicFunctionSkeleton) -> T {
    x.d()
}
pub fn d_basic_function_term(x: &BasicFunctionTerm) -> T {
    x.d()
}
pub fn d_binary_comp(x: &BinaryComp) -> T {
    x.d()
}
pub fn d_binary_op(x: &BinaryOp) -> T {
    x.d()
}
pub fn d_c_effect(x: &CEffect) -> T {
    x.d()
}
pub fn d_forall_c_effect(x: &ForallCEffect) -> T {
    x.d()
}
pub fn d_when_c_effect(x: &WhenCEffect) -> T {
    x.d()
}
pub fn d_ignore_eol_comment(x: &()) -> T {
    x.d()
}
pub fn d_con_gd(x: &ConGD) -> T {
    x.d()
}
pub fn d_cond_effect(x: &ConditionalEffect) -> T {
    x.d()
}
pub fn d_constants_def(x: &Constants) -> T {
    x.d()
}
pub fn d_d_op(x: &DOp) -> T {
    x.d()
}
pub fn d_d_value(x: &DurationValue) -> T {
    x.d()
}
pub fn d_da_def(x: &DurativeActionDefinition) -> T {
    x.d()
}
pub fn d_da_effect(x: &DurativeActionEffect) -> T {
    x.d()
}
pub fn d_da_gd(x: &DurativeActionGoalDefinition) -> T {
    x.d()
}
pub fn d_da_symbol(x: &DurativeActionSymbol) -> T {
    x.d()
}
pub fn d_derived_predicate(x: &DerivedPredicate) -> T {
    x.d()
}
pub fn d_domain(x: &Domain) -> T {
    x.d()
}
pub fn d_domain_constraints_def(x: &DomainConstraintsDef) -> T {
    x.d()
}
pub fn d_duration_constraint(x: &Option<DurationConstraint>) -> T {
    x.d()
}
pub fn d_effect(x: &Effects) -> T {
    x.d()
}
pub fn d_f_assign_da(x: &FAssignDa) -> T {
    x.d()
}
pub fn d_f_comp(x: &FComp) -> T {
    x.d()
}
pub fn d_f_exp(x: &FExp) -> T {
    x.d()
}
pub fn d_f_exp_da(x: &FExpDa) -> T {
    x.d()
}
pub fn d_f_exp_t(x: &FExpT) -> T {
    x.d()
}
pub fn d_f_head(x: &FHead) -> T {
    x.d()
}
pub fn d_function_symbol(x: &FunctionSymbol) -> T {
    x.d()
}
pub fn d_function_term(x: &FunctionTerm) -> T {
    x.d()
}
pub fn d_function_type(x: &FunctionType) -> T {
    x.d()
}
pub fn d_functions_def(x: &Functions) -> T {
    x.d()
}
pub fn d_gd(x: &GoalDefinition) -> T {
    x.d()
}
pub fn d_problem_goal_def(x: &GoalDef) -> T {
    x.d()
}
pub fn d_problem_init_def(x: &InitElements) -> T {
    x.d()
}
pub fn d_init_el(x: &InitElement) -> T {
    x.d()
}
pub fn d_interval(x: &Interval) -> T {
    x.d()
}
pub fn d_problem_length_spec(x: &LengthSpec) -> T {
    x.d()
}
pub fn d_metric_f_exp(x: &MetricFExp) -> T {
    x.d()
}
pub fn d_problem_metric_spec(x: &MetricSpec) -> T {
    x.d()
}
pub fn d_multi_op(x: &MultiOp) -> T {
    x.d()
}
pub fn d_name(x: &Name) -> T {
    x.d()
}
pub fn d_number(x: &Number) -> T {
    x.d()
}
pub fn d_problem_objects_declaration(x: &Objects) -> T {
    x.d()
}
pub fn d_optimization(x: &Optimization) -> T {
    x.d()
}
pub fn d_p_effect(x: &PEffect) -> T {
    x.d()
}
pub fn d_pre_gd(x: &PreconditionGoalDefinitions) -> T {
    x.d()
}
pub fn d_predicate(x: &Predicate) -> T {
    x.d()
}
pub fn d_predicates_def(x: &PredicateDefinitions) -> T {
    x.d()
}
pub fn d_pref_con_gd(x: &PrefConGDs) -> T {
    x.d()
}
pub fn d_pref_gd(x: &PreferenceGD) -> T {
    x.d()
}
pub fn d_pref_name(x: &PreferenceName) -> T {
    x.d()
}
pub fn d_pref_timed_gd(x: &PrefTimedGD) -> T {
    x.d()
}
pub fn d_primitive_type(x: &PrimitiveType) -> T {
    x.d()
}
pub fn d_problem(x: &Problem) -> T {
    x.d()
}
pub fn d_problem_constraints_def(x: &ProblemConstraintsDef) -> T {
    x.d()
}
pub fn d_require_def(x: &Requirements) -> T {
    x.d()
}
pub fn d_require_key(x: &Requirement) -> T {
    x.d()
}
pub fn d_simple_duration_constraint(x: &SimpleDurationConstraint) -> T {
    x.d()
}
pub fn d_structure_def(x: &StructureDef) -> T {
    x.d()
}
pub fn d_term(x: &Term) -> T {
    x.d()
}
pub fn d_time_specifier(x: &TimeSpecifier) -> T {
    x.d()
}
pub fn d_timed_effect(x: &TimedEffect) -> T {
    x.d()
}
pub fn d_timed_gd(x: &TimedGD) -> T {
    x.d()
}
pub fn d_timeless_def(x: &Timeless) -> T {
    x.d()
}
pub fn d_type(x: &Type) -> T {
    x.d()
}
pub fn d_types_def(x: &Types) -> T {
    x.d()
}
pub fn d_variable(x: &Variable) -> T {
    x.d()
}
pub fn d_con2_gd(x: &Con2GD) -> T {
    x.d()
}

pub enum Outcome {
    Ok(usize, T),
    Err(u8),
}

fn fin<X>(r: pddl::parsers::ParseResult<'_, X>, d: fn(&X) -> T) -> Outcome {
    match r {
        Ok((rest, x)) => Outcome::Ok(rest.fragment().len(), d(&x)),
        // nom is deliberately not a direct dependency: item paths in the dump depend on that
        Err(e) if e.is_incomplete() => Outcome::Err(0),
        Err(e) => Outcome::Err(if format!("{:?}", e).starts_with("Failure") { 2 } else { 1 }),
    }
}

pub fn replay(root: &str, text: &str) -> Option<Outcome> {
    let i = Span::new(text);
    Some(match root {
        "t_action_def_parse" => fin(t_action_def_parse(i), d_action_def),
        "t_action_def_span" => fin(t_action_def_span(i), d_action_def),
        "t_action_def_text" => fin(t_action_def_text(i), d_action_def),
        "t_action_def_str" => fin(t_action_def_str(i), d_action_def),
        "s_action_def" => fin(s_action_def(text), d_action_def),
        "t_action_symbol_parse" => fin(t_action_symbol_parse(i), d_action_symbol),
        "t_action_symbol_span" => fin(t_action_symbol_span(i), d_action_symbol),
        "t_action_symbol_text" => fin(t_action_symbol_text(i), d_action_symbol),
        "t_action_symbol_str" => fin(t_action_symbol_str(i), d_action_symbol),
        "s_action_symbol" => fin(s_action_symbol(text), d_action_symbol),
        "t_assign_op_parse" => fin(t_assign_op_parse(i), d_assign_op),
        "t_assign_op_span" => fin(t_assign_op_span(i), d_assign_op),
        "t_assign_op_text" => fin(t_assign_op_text(i), d_assign_op),
        "t_assign_op_str" => fin(t_assign_op_str(i), d_assign_op),
        "s_assign_op" => fin(s_assign_op(text), d_assign_op),
        "t_assign_op_t_parse" => fin(t_assign_op_t_parse(i), d_assign_op_t),
        "t_assign_op_t_span" => fin(t_assign_op_t_span(i), d_assign_op_t),
        "t_assign_op_t_text" => fin(t_assign_op_t_text(i), d_assign_op_t),
        "t_assign_op_t_str" => fin(t_assign_op_t_str(i), d_assign_op_t),
        "s_assign_op_t" => fin(s_assign_op_t(text), d_assign_op_t),
        "t_atomic_formula_skeleton_parse" => fin(t_atomic_formula_skeleton_parse(i), d_atomic_formula_skeleton),
        "t_atomic_formula_skeleton_span" => fin(t_atomic_formula_skeleton_span(i), d_atomic_formula_skeleton),
        "t_atomic_formula_skeleton_text" => fin(t_atomic_formula_skeleton_text(i), d_atomic_formula_skeleton),
        "t_atomic_formula_skeleton_str" => fin(t_atomic_formula_skeleton_str(i), d_atomic_formula_skeleton),
        "s_atomic_formula_skeleton" => fin(s_atomic_formula_skeleton(text), d_atomic_formula_skeleton),
        "t_atomic_function_skeleton_parse" => fin(t_atomic_function_skeleton_parse(i), d_atomic_function_skeleton),
        "t_atomic_function_skeleton_span" => fin(t_atomic_function_skeleton_span(i), d_atomic_function_skeleton),
        "t_atomic_function_skeleton_text" => fin(t_atomic_function_skeleton_text(i), d_atomic_function_skeleton),
        "t_atomic_function_skeleton_str" => fin(t_atomic_function_skeleton_str(i), d_atomic_function_skeleton),
        "s_atomic_function_skeleton" => fin(s_atomic_function_skeleton(text), d_atomic_function_skeleton),
        "t_basic_function_term_parse" => fin(t_basic_function_term_parse(i), d_basic_function_term),
        "t_basic_function_term_span" => fin(t_basic_function_term_span(i), d_basic_function_term),
        "t_basic_function_term_text" => fin(t_basic_function_term_text(i), d_basic_function_term),
        "t_basic_function_term_str" => fin(t_basic_function_term_str(i), d_basic_function_term),
        "s_basic_function_term" => fin(s_basic_function_term(text), d_basic_function_term),
        "t_binary_comp_parse" => fin(t_binary_comp_parse(i), d_binary_comp),
        "t_binary_comp_span" => fin(t_binary_comp_span(i), d_binary_comp),
        "t_binary_comp_text" => fin(t_binary_comp_text(i), d_binary_comp),
        "t_binary_comp_str" => fin(t_binary_comp_str(i), d_binary_comp),
        "s_binary_comp" => fin(s_binary_comp(text), d_binary_comp),
        "t_binary_op_parse" => fin(t_binary_op_parse(i), d_binary_op),
        "t_binary_op_span" => fin(t_binary_op_span(i), d_binary_op),
        "t_binary_op_text" => fin(t_binary_op_text(i), d_binary_op),
        "t_binary_op_str" => fin(t_binary_op_str(i), d_binary_op),
        "s_binary_op" => fin(s_binary_op(text), d_binary_op),
        "t_c_effect_parse" => fin(t_c_effect_parse(i), d_c_effect),
        "t_c_effect_span" => fin(t_c_effect_span(i), d_c_effect),
        "t_c_effect_text" => fin(t_c_effect_text(i), d_c_effect),
        "t_c_effect_str" => fin(t_c_effect_str(i), d_c_effect),
        "s_c_effect" => fin(s_c_effect(text), d_c_effect),
        "t_forall_c_effect_parse" => fin(t_forall_c_effect_parse(i), d_forall_c_effect),
        "t_forall_c_effect_span" => fin(t_forall_c_effect_span(i), d_forall_c_effect),
        "t_forall_c_effect_text" => fin(t_forall_c_effect_text(i), d_forall_c_effect),
        "t_forall_c_effect_str" => fin(t_forall_c_effect_str(i), d_forall_c_effect),
        "s_forall_c_effect" => fin(s_forall_c_effect(text), d_forall_c_effect),
        "t_when_c_effect_parse" => fin(t_when_c_effect_parse(i), d_when_c_effect),
        "t_when_c_effect_span" => fin(t_when_c_effect_span(i), d_when_c_effect),
        "t_when_c_effect_text" => fin(t_when_c_effect_text(i), d_when_c_effect),
        "t_when_c_effect_str" => fin(t_when_c_effect_str(i), d_when_c_effect),
        "s_when_c_effect" => fin(s_when_c_effect(text), d_when_c_effect),
        "s_ignore_eol_comment" => fin(s_ignore_eol_comment(text), d_ignore_eol_comment),
        "t_con_gd_parse" => fin(t_con_gd_parse(i), d_con_gd),
        "t_con_gd_span" => fin(t_con_gd_span(i), d_con_gd),
        "t_con_gd_text" => fin(t_con_gd_text(i), d_con_gd),
        "t_con_gd_str" => fin(t_con_gd_str(i), d_con_gd),
        "s_con_gd" => fin(s_con_gd(text), d_con_gd),
        "t_cond_effect_parse" => fin(t_cond_effect_parse(i), d_cond_effect),
        "t_cond_effect_span" => fin(t_cond_effect_span(i), d_cond_effect),
        "t_cond_effect_text" => fin(t_cond_effect_text(i), d_cond_effect),
        "t_cond_effect_str" => fin(t_cond_effect_str(i), d_cond_effect),
        "s_cond_effect" => fin(s_cond_effect(text), d_cond_effect),
        "t_constants_def_parse" => fin(t_constants_def_parse(i), d_constants_def),
        "t_constants_def_span" => fin(t_constants_def_span(i), d_constants_def),
        "t_constants_def_text" => fin(t_constants_def_text(i), d_constants_def),
        "t_constants_def_str" => fin(t_constants_def_str(i), d_constants_def),
        "s_constants_def" => fin(s_constants_def(text), d_constants_def),
        "t_d_op_parse" => fin(t_d_op_parse(i), d_d_op),
        "t_d_op_span" => fin(t_d_op_span(i), d_d_op),
        "t_d_op_text" => fin(t_d_op_text(i), d_d_op),
        "t_d_op_str" => fin(t_d_op_str(i), d_d_op),
        "s_d_op" => fin(s_d_op(text), d_d_op),
        "t_d_value_parse" => fin(t_d_value_parse(i), d_d_value),
        "t_d_value_span" => fin(t_d_value_span(i), d_d_value),
        "t_d_value_text" => fin(t_d_value_text(i), d_d_value),
        "t_d_value_str" => fin(t_d_value_str(i), d_d_value),
        "s_d_value" => fin(s_d_value(text), d_d_value),
        "t_da_def_parse" => fin(t_da_def_parse(i), d_da_def),
        "t_da_def_span" => fin(t_da_def_span(i), d_da_def),
        "t_da_def_text" => fin(t_da_def_text(i), d_da_def),
        "t_da_def_str" => fin(t_da_def_str(i), d_da_def),
        "s_da_def" => fin(s_da_def(text), d_da_def),
        "t_da_effect_parse" => fin(t_da_effect_parse(i), d_da_effect),
        "t_da_effect_span" => fin(t_da_effect_span(i), d_da_effect),
        "t_da_effect_text" => fin(t_da_effect_text(i), d_da_effect),
        "t_da_effect_str" => fin(t_da_effect_str(i), d_da_effect),
        "s_da_effect" => fin(s_da_effect(text), d_da_effect),
        "t_da_gd_parse" => fin(t_da_gd_parse(i), d_da_gd),
        "t_da_gd_span" => fin(t_da_gd_span(i), d_da_gd),
        "t_da_gd_text" => fin(t_da_gd_text(i), d_da_gd),
        "t_da_gd_str" => fin(t_da_gd_str(i), d_da_gd),
        "s_da_gd" => fin(s_da_gd(text), d_da_gd),
        "t_da_symbol_parse" => fin(t_da_symbol_parse(i), d_da_symbol),
        "t_da_symbol_span" => fin(t_da_symbol_span(i), d_da_symbol),
        "t_da_symbol_text" => fin(t_da_symbol_text(i), d_da_symbol),
        "t_da_symbol_str" => fin(t_da_symbol_str(i), d_da_symbol),
        "s_da_symbol" => fin(s_da_symbol(text), d_da_symbol),
        "t_derived_predicate_parse" => fin(t_derived_predicate_parse(i), d_derived_predicate),
        "t_derived_predicate_span" => fin(t_derived_predicate_span(i), d_derived_predicate),
        "t_derived_predicate_text" => fin(t_derived_predicate_text(i), d_derived_predicate),
        "t_derived_predicate_str" => fin(t_derived_predicate_str(i), d_derived_predicate),
        "s_derived_predicate" => fin(s_derived_predicate(text), d_derived_predicate),
        "t_domain_parse" => fin(t_domain_parse(i), d_domain),
        "t_domain_span" => fin(t_domain_span(i), d_domain),
        "t_domain_text" => fin(t_domain_text(i), d_domain),
        "t_domain_str" => fin(t_domain_str(i), d_domain),
        "s_domain" => fin(s_domain(text), d_domain),
        "t_domain_constraints_def_parse" => fin(t_domain_constraints_def_parse(i), d_domain_constraints_def),
        "t_domain_constraints_def_span" => fin(t_domain_constraints_def_span(i), d_domain_constraints_def),
        "t_domain_constraints_def_text" => fin(t_domain_constraints_def_text(i), d_domain_constraints_def),
        "t_domain_constraints_def_str" => fin(t_domain_constraints_def_str(i), d_domain_constraints_def),
        "s_domain_constraints_def" => fin(s_domain_constraints_def(text), d_domain_constraints_def),
        "t_duration_constraint_parse" => fin(t_duration_constraint_parse(i), d_duration_constraint),
        "t_duration_constraint_span" => fin(t_duration_constraint_span(i), d_duration_constraint),
        "t_duration_constraint_text" => fin(t_duration_constraint_text(i), d_duration_constraint),
        "t_duration_constraint_str" => fin(t_duration_constraint_str(i), d_duration_constraint),
        "s_duration_constraint" => fin(s_duration_constraint(text), d_duration_constraint),
        "t_effect_parse" => fin(t_effect_parse(i), d_effect),
        "t_effect_span" => fin(t_effect_span(i), d_effect),
        "t_effect_text" => fin(t_effect_text(i), d_effect),
        "t_effect_str" => fin(t_effect_str(i), d_effect),
        "s_effect" => fin(s_effect(text), d_effect),
        "t_f_assign_da_parse" => fin(t_f_assign_da_parse(i), d_f_assign_da),
        "t_f_assign_da_span" => fin(t_f_assign_da_span(i), d_f_assign_da),
        "t_f_assign_da_text" => fin(t_f_assign_da_text(i), d_f_assign_da),
        "t_f_assign_da_str" => fin(t_f_assign_da_str(i), d_f_assign_da),
        "s_f_assign_da" => fin(s_f_assign_da(text), d_f_assign_da),
        "t_f_comp_parse" => fin(t_f_comp_parse(i), d_f_comp),
        "t_f_comp_span" => fin(t_f_comp_span(i), d_f_comp),
        "t_f_comp_text" => fin(t_f_comp_text(i), d_f_comp),
        "t_f_comp_str" => fin(t_f_comp_str(i), d_f_comp),
        "s_f_comp" => fin(s_f_comp(text), d_f_comp),
        "t_f_exp_parse" => fin(t_f_exp_parse(i), d_f_exp),
        "t_f_exp_span" => fin(t_f_exp_span(i), d_f_exp),
        "t_f_exp_text" => fin(t_f_exp_text(i), d_f_exp),
        "t_f_exp_str" => fin(t_f_exp_str(i), d_f_exp),
        "s_f_exp" => fin(s_f_exp(text), d_f_exp),
        "t_f_exp_da_parse" => fin(t_f_exp_da_parse(i), d_f_exp_da),
        "t_f_exp_da_span" => fin(t_f_exp_da_span(i), d_f_exp_da),
        "t_f_exp_da_text" => fin(t_f_exp_da_text(i), d_f_exp_da),
        "t_f_exp_da_str" => fin(t_f_exp_da_str(i), d_f_exp_da),
        "s_f_exp_da" => fin(s_f_exp_da(text), d_f_exp_da),
        "t_f_exp_t_parse" => fin(t_f_exp_t_parse(i), d_f_exp_t),
        "t_f_exp_t_span" => fin(t_f_exp_t_span(i), d_f_exp_t),
        "t_f_exp_t_text" => fin(t_f_exp_t_text(i), d_f_exp_t),
        "t_f_exp_t_str" => fin(t_f_exp_t_str(i), d_f_exp_t),
        "s_f_exp_t" => fin(s_f_exp_t(text), d_f_exp_t),
        "t_f_head_parse" => fin(t_f_head_parse(i), d_f_head),
        "t_f_head_span" => fin(t_f_head_span(i), d_f_head),
        "t_f_head_text" => fin(t_f_head_text(i), d_f_head),
        "t_f_head_str" => fin(t_f_head_str(i), d_f_head),
        "s_f_head" => fin(s_f_head(text), d_f_head),
        "t_function_symbol_parse" => fin(t_function_symbol_parse(i), d_function_symbol),
        "t_function_symbol_span" => fin(t_function_symbol_span(i), d_function_symbol),
        "t_function_symbol_text" => fin(t_function_symbol_text(i), d_function_symbol),
        "t_function_symbol_str" => fin(t_function_symbol_str(i), d_function_symbol),
        "s_function_symbol" => fin(s_function_symbol(text), d_function_symbol),
        "t_function_term_parse" => fin(t_function_term_parse(i), d_function_term),
        "t_function_term_span" => fin(t_function_term_span(i), d_function_term),
        "t_function_term_text" => fin(t_function_term_text(i), d_function_term),
        "t_function_term_str" => fin(t_function_term_str(i), d_function_term),
        "s_function_term" => fin(s_function_term(text), d_function_term),
        "t_function_type_parse" => fin(t_function_type_parse(i), d_function_type),
        "t_function_type_span" => fin(t_function_type_span(i), d_function_type),
        "t_function_type_text" => fin(t_function_type_text(i), d_function_type),
        "t_function_type_str" => fin(t_function_type_str(i), d_function_type),
        "s_function_type" => fin(s_function_type(text), d_function_type),
        "t_functions_def_parse" => fin(t_functions_def_parse(i), d_functions_def),
        "t_functions_def_span" => fin(t_functions_def_span(i), d_functions_def),
        "t_functions_def_text" => fin(t_functions_def_text(i), d_functions_def),
        "t_functions_def_str" => fin(t_functions_def_str(i), d_functions_def),
        "s_functions_def" => fin(s_functions_def(text), d_functions_def),
        "t_gd_parse" => fin(t_gd_parse(i), d_gd),
        "t_gd_span" => fin(t_gd_span(i), d_gd),
        "t_gd_text" => fin(t_gd_text(i), d_gd),
        "t_gd_str" => fin(t_gd_str(i), d_gd),
        "s_gd" => fin(s_gd(text), d_gd),
        "t_problem_goal_def_parse" => fin(t_problem_goal_def_parse(i), d_problem_goal_def),
        "t_problem_goal_def_span" => fin(t_problem_goal_def_span(i), d_problem_goal_def),
        "t_problem_goal_def_text" => fin(t_problem_goal_def_text(i), d_problem_goal_def),
        "t_problem_goal_def_str" => fin(t_problem_goal_def_str(i), d_problem_goal_def),
        "s_problem_goal_def" => fin(s_problem_goal_def(text), d_problem_goal_def),
        "t_problem_init_def_parse" => fin(t_problem_init_def_parse(i), d_problem_init_def),
        "t_problem_init_def_span" => fin(t_problem_init_def_span(i), d_problem_init_def),
        "t_problem_init_def_text" => fin(t_problem_init_def_text(i), d_problem_init_def),
        "t_problem_init_def_str" => fin(t_problem_init_def_str(i), d_problem_init_def),
        "s_problem_init_def" => fin(s_problem_init_def(text), d_problem_init_def),
        "t_init_el_parse" => fin(t_init_el_parse(i), d_init_el),
        "t_init_el_span" => fin(t_init_el_span(i), d_init_el),
        "t_init_el_text" => fin(t_init_el_text(i), d_init_el),
        "t_init_el_str" => fin(t_init_el_str(i), d_init_el),
        "s_init_el" => fin(s_init_el(text), d_init_el),
        "t_interval_parse" => fin(t_interval_parse(i), d_interval),
        "t_interval_span" => fin(t_interval_span(i), d_interval),
        "t_interval_text" => fin(t_interval_text(i), d_interval),
        "t_interval_str" => fin(t_interval_str(i), d_interval),
        "s_interval" => fin(s_interval(text), d_interval),
        "t_problem_length_spec_parse" => fin(t_problem_length_spec_parse(i), d_problem_length_spec),
        "t_problem_length_spec_span" => fin(t_problem_length_spec_span(i), d_problem_length_spec),
        "t_problem_length_spec_text" => fin(t_problem_length_spec_text(i), d_problem_length_spec),
        "t_problem_length_spec_str" => fin(t_problem_length_spec_str(i), d_problem_length_spec),
        "s_problem_length_spec" => fin(s_problem_length_spec(text), d_problem_length_spec),
        "t_metric_f_exp_parse" => fin(t_metric_f_exp_parse(i), d_metric_f_exp),
        "t_metric_f_exp_span" => fin(t_metric_f_exp_span(i), d_metric_f_exp),
        "t_metric_f_exp_text" => fin(t_metric_f_exp_text(i), d_metric_f_exp),
        "t_metric_f_exp_str" => fin(t_metric_f_exp_str(i), d_metric_f_exp),
        "s_metric_f_exp" => fin(s_metric_f_exp(text), d_metric_f_exp),
        "t_problem_metric_spec_parse" => fin(t_problem_metric_spec_parse(i), d_problem_metric_spec),
        "t_problem_metric_spec_span" => fin(t_problem_metric_spec_span(i), d_problem_metric_spec),
        "t_problem_metric_spec_text" => fin(t_problem_metric_spec_text(i), d_problem_metric_spec),
        "t_problem_metric_spec_str" => fin(t_problem_metric_spec_str(i), d_problem_metric_spec),
        "s_problem_metric_spec" => fin(s_problem_metric_spec(text), d_problem_metric_spec),
        "t_multi_op_parse" => fin(t_multi_op_parse(i), d_multi_op),
        "t_multi_op_span" => fin(t_multi_op_span(i), d_multi_op),
        "t_multi_op_text" => fin(t_multi_op_text(i), d_multi_op),
        "t_multi_op_str" => fin(t_multi_op_str(i), d_multi_op),
        "s_multi_op" => fin(s_multi_op(text), d_multi_op),
        "t_name_parse" => fin(t_name_parse(i), d_name),
        "t_name_span" => fin(t_name_span(i), d_name),
        "t_name_text" => fin(t_name_text(i), d_name),
        "t_name_str" => fin(t_name_str(i), d_name),
        "s_name" => fin(s_name(text), d_name),
        "t_number_parse" => fin(t_number_parse(i), d_number),
        "t_number_span" => fin(t_number_span(i), d_number),
        "t_number_text" => fin(t_number_text(i), d_number),
        "t_number_str" => fin(t_number_str(i), d_number),
        "s_number" => fin(s_number(text), d_number),
        "t_problem_objects_declaration_parse" => fin(t_problem_objects_declaration_parse(i), d_problem_objects_declaration),
        "t_problem_objects_declaration_span" => fin(t_problem_objects_declaration_span(i), d_problem_objects_declaration),
        "t_problem_objects_declaration_text" => fin(t_problem_objects_declaration_text(i), d_problem_objects_declaration),
        "t_problem_objects_declaration_str" => fin(t_problem_objects_declaration_str(i), d_problem_objects_declaration),
        "s_problem_objects_declaration" => fin(s_problem_objects_declaration(text), d_problem_objects_declaration),
        "t_optimization_parse" => fin(t_optimization_parse(i), d_optimization),
        "t_optimization_span" => fin(t_optimization_span(i), d_optimization),
        "t_optimization_text" => fin(t_optimization_text(i), d_optimization),
        "t_optimization_str" => fin(t_optimization_str(i), d_optimization),
        "s_optimization" => fin(s_optimization(text), d_optimization),
        "t_p_effect_parse" => fin(t_p_effect_parse(i), d_p_effect),
        "t_p_effect_span" => fin(t_p_effect_span(i), d_p_effect),
        "t_p_effect_text" => fin(t_p_effect_text(i), d_p_effect),
        "t_p_effect_str" => fin(t_p_effect_str(i), d_p_effect),
        "s_p_effect" => fin(s_p_effect(text), d_p_effect),
        "t_pre_gd_parse" => fin(t_pre_gd_parse(i), d_pre_gd),
        "t_pre_gd_span" => fin(t_pre_gd_span(i), d_pre_gd),
        "t_pre_gd_text" => fin(t_pre_gd_text(i), d_pre_gd),
        "t_pre_gd_str" => fin(t_pre_gd_str(i), d_pre_gd),
        "s_pre_gd" => fin(s_pre_gd(text), d_pre_gd),
        "t_predicate_parse" => fin(t_predicate_parse(i), d_predicate),
        "t_predicate_span" => fin(t_predicate_span(i), d_predicate),
        "t_predicate_text" => fin(t_predicate_text(i), d_predicate),
        "t_predicate_str" => fin(t_predicate_str(i), d_predicate),
        "s_predicate" => fin(s_predicate(text), d_predicate),
        "t_predicates_def_parse" => fin(t_predicates_def_parse(i), d_predicates_def),
        "t_predicates_def_span" => fin(t_predicates_def_span(i), d_predicates_def),
        "t_predicates_def_text" => fin(t_predicates_def_text(i), d_predicates_def),
        "t_predicates_def_str" => fin(t_predicates_def_str(i), d_predicates_def),
        "s_predicates_def" => fin(s_predicates_def(text), d_predicates_def),
        "t_pref_con_gd_parse" => fin(t_pref_con_gd_parse(i), d_pref_con_gd),
        "t_pref_con_gd_span" => fin(t_pref_con_gd_span(i), d_pref_con_gd),
        "t_pref_con_gd_text" => fin(t_pref_con_gd_text(i), d_pref_con_gd),
        "t_pref_con_gd_str" => fin(t_pref_con_gd_str(i), d_pref_con_gd),
        "s_pref_con_gd" => fin(s_pref_con_gd(text), d_pref_con_gd),
        "t_pref_gd_parse" => fin(t_pref_gd_parse(i), d_pref_gd),
        "t_pref_gd_span" => fin(t_pref_gd_span(i), d_pref_gd),
        "t_pref_gd_text" => fin(t_pref_gd_text(i), d_pref_gd),
        "t_pref_gd_str" => fin(t_pref_gd_str(i), d_pref_gd),
        "s_pref_gd" => fin(s_pref_gd(text), d_pref_gd),
        "t_pref_name_parse" => fin(t_pref_name_parse(i), d_pref_name),
        "t_pref_name_span" => fin(t_pref_name_span(i), d_pref_name),
        "t_pref_name_text" => fin(t_pref_name_text(i), d_pref_name),
        "t_pref_name_str" => fin(t_pref_name_str(i), d_pref_name),
        "s_pref_name" => fin(s_pref_name(text), d_pref_name),
        "t_pref_timed_gd_parse" => fin(t_pref_timed_gd_parse(i), d_pref_timed_gd),
        "t_pref_timed_gd_span" => fin(t_pref_timed_gd_span(i), d_pref_timed_gd),
        "t_pref_timed_gd_text" => fin(t_pref_timed_gd_text(i), d_pref_timed_gd),
        "t_pref_timed_gd_str" => fin(t_pref_timed_gd_str(i), d_pref_timed_gd),
        "s_pref_timed_gd" => fin(s_pref_timed_gd(text), d_pref_timed_gd),
        "t_primitive_type_parse" => fin(t_primitive_type_parse(i), d_primitive_type),
        "t_primitive_type_span" => fin(t_primitive_type_span(i), d_primitive_type),
        "t_primitive_type_text" => fin(t_primitive_type_text(i), d_primitive_type),
        "t_primitive_type_str" => fin(t_primitive_type_str(i), d_primitive_type),
        "s_primitive_type" => fin(s_primitive_type(text), d_primitive_type),
        "t_problem_parse" => fin(t_problem_parse(i), d_problem),
        "t_problem_span" => fin(t_problem_span(i), d_problem),
        "t_problem_text" => fin(t_problem_text(i), d_problem),
        "t_problem_str" => fin(t_problem_str(i), d_problem),
        "s_problem" => fin(s_problem(text), d_problem),
        "t_problem_constraints_def_parse" => fin(t_problem_constraints_def_parse(i), d_problem_constraints_def),
        "t_problem_constraints_def_span" => fin(t_problem_constraints_def_span(i), d_problem_constraints_def),
        "t_problem_constraints_def_text" => fin(t_problem_constraints_def_text(i), d_problem_constraints_def),
        "t_problem_constraints_def_str" => fin(t_problem_constraints_def_str(i), d_problem_constraints_def),
        "s_problem_constraints_def" => fin(s_problem_constraints_def(text), d_problem_constraints_def),
        "t_require_def_parse" => fin(t_require_def_parse(i), d_require_def),
        "t_require_def_span" => fin(t_require_def_span(i), d_require_def),
        "t_require_def_text" => fin(t_require_def_text(i), d_require_def),
        "t_require_def_str" => fin(t_require_def_str(i), d_require_def),
        "s_require_def" => fin(s_require_def(text), d_require_def),
        "t_require_key_parse" => fin(t_require_key_parse(i), d_require_key),
        "t_require_key_span" => fin(t_require_key_span(i), d_require_key),
        "t_require_key_text" => fin(t_require_key_text(i), d_require_key),
        "t_require_key_str" => fin(t_require_key_str(i), d_require_key),
        "s_require_key" => fin(s_require_key(text), d_require_key),
        "t_simple_duration_constraint_parse" => fin(t_simple_duration_constraint_parse(i), d_simple_duration_constraint),
        "t_simple_duration_constraint_span" => fin(t_simple_duration_constraint_span(i), d_simple_duration_constraint),
        "t_simple_duration_constraint_text" => fin(t_simple_duration_constraint_text(i), d_simple_duration_constraint),
        "t_simple_duration_constraint_str" => fin(t_simple_duration_constraint_str(i), d_simple_duration_constraint),
        "s_simple_duration_constraint" => fin(s_simple_duration_constraint(text), d_simple_duration_constraint),
        "t_structure_def_parse" => fin(t_structure_def_parse(i), d_structure_def),
        "t_structure_def_span" => fin(t_structure_def_span(i), d_structure_def),
        "t_structure_def_text" => fin(t_structure_def_text(i), d_structure_def),
        "t_structure_def_str" => fin(t_structure_def_str(i), d_structure_def),
        "s_structure_def" => fin(s_structure_def(text), d_structure_def),
        "t_term_parse" => fin(t_term_parse(i), d_term),
        "t_term_span" => fin(t_term_span(i), d_term),
        "t_term_text" => fin(t_term_text(i), d_term),
        "t_term_str" => fin(t_term_str(i), d_term),
        "s_term" => fin(s_term(text), d_term),
        "t_time_specifier_parse" => fin(t_time_specifier_parse(i), d_time_specifier),
        "t_time_specifier_span" => fin(t_time_specifier_span(i), d_time_specifier),
        "t_time_specifier_text" => fin(t_time_specifier_text(i), d_time_specifier),
        "t_time_specifier_str" => fin(t_time_specifier_str(i), d_time_specifier),
        "s_time_specifier" => fin(s_time_specifier(text), d_time_specifier),
        "t_timed_effect_parse" => fin(t_timed_effect_parse(i), d_timed_effect),
        "t_timed_effect_span" => fin(t_timed_effect_span(i), d_timed_effect),
        "t_timed_effect_text" => fin(t_timed_effect_text(i), d_timed_effect),
        "t_timed_effect_str" => fin(t_timed_effect_str(i), d_timed_effect),
        "s_timed_effect" => fin(s_timed_effect(text), d_timed_effect),
        "t_timed_gd_parse" => fin(t_timed_gd_parse(i), d_timed_gd),
        "t_timed_gd_span" => fin(t_timed_gd_span(i), d_timed_gd),
        "t_timed_gd_text" => fin(t_timed_gd_text(i), d_timed_gd),
        "t_timed_gd_str" => fin(t_timed_gd_str(i), d_timed_gd),
        "s_timed_gd" => fin(s_timed_gd(text), d_timed_gd),
        "t_timeless_def_parse" => fin(t_timeless_def_parse(i), d_timeless_def),
        "t_timeless_def_span" => fin(t_timeless_def_span(i), d_timeless_def),
        "t_timeless_def_text" => fin(t_timeless_def_text(i), d_timeless_def),
        "t_timeless_def_str" => fin(t_timeless_def_str(i), d_timeless_def),
        "s_timeless_def" => fin(s_timeless_def(text), d_timeless_def),
        "t_type_parse" => fin(t_type_parse(i), d_type),
        "t_type_span" => fin(t_type_span(i), d_type),
        "t_type_text" => fin(t_type_text(i), d_type),
        "t_type_str" => fin(t_type_str(i), d_type),
        "s_type" => fin(s_type(text), d_type),
        "t_types_def_parse" => fin(t_types_def_parse(i), d_types_def),
        "t_types_def_span" => fin(t_types_def_span(i), d_types_def),
        "t_types_def_text" => fin(t_types_def_text(i), d_types_def),
        "t_types_def_str" => fin(t_types_def_str(i), d_types_def),
        "s_types_def" => fin(s_types_def(text), d_types_def),
        "t_variable_parse" => fin(t_variable_parse(i), d_variable),
        "t_variable_span" => fin(t_variable_span(i), d_variable),
        "t_variable_text" => fin(t_variable_text(i), d_variable),
        "t_variable_str" => fin(t_variable_str(i), d_variable),
        "s_variable" => fin(s_variable(text), d_variable),
        "t_con2_gd_parse" => fin(t_con2_gd_parse(i), d_con2_gd),
        "t_con2_gd_span" => fin(t_con2_gd_span(i), d_con2_gd),
        "t_con2_gd_text" => fin(t_con2_gd_text(i), d_con2_gd),
        "t_con2_gd_str" => fin(t_con2_gd_str(i), d_con2_gd),
        "s_con2_gd" => fin(s_con2_gd(text), d_con2_gd),
        "action_def" => fin(p_action_def(i), d_action_def),
        "action_symbol" => fin(p_action_symbol(i), d_action_symbol),
        "assign_op" => fin(p_assign_op(i), d_assign_op),
        "assign_op_t" => fin(p_assign_op_t(i), d_assign_op_t),
        "atomic_formula_skeleton" => fin(p_atomic_formula_skeleton(i), d_atomic_formula_skeleton),
        "atomic_function_skeleton" => fin(p_atomic_function_skeleton(i), d_atomic_function_skeleton),
        "basic_function_term" => fin(p_basic_function_term(i), d_basic_function_term),
        "binary_comp" => fin(p_binary_comp(i), d_binary_comp),
        "binary_op" => fin(p_binary_op(i), d_binary_op),
        "c_effect" => fin(p_c_effect(i), d_c_effect),
        "forall_c_effect" => fin(p_forall_c_effect(i), d_forall_c_effect),
        "when_c_effect" => fin(p_when_c_effect(i), d_when_c_effect),
        "ignore_eol_comment" => fin(p_ignore_eol_comment(i), d_ignore_eol_comment),
        "con_gd" => fin(p_con_gd(i), d_con_gd),
        "cond_effect" => fin(p_cond_effect(i), d_cond_effect),
        "constants_def" => fin(p_constants_def(i), d_constants_def),
        "d_op" => fin(p_d_op(i), d_d_op),
        "d_value" => fin(p_d_value(i), d_d_value),
        "da_def" => fin(p_da_def(i), d_da_def),
        "da_effect" => fin(p_da_effect(i), d_da_effect),
        "da_gd" => fin(p_da_gd(i), d_da_gd),
        "da_symbol" => fin(p_da_symbol(i), d_da_symbol),
        "derived_predicate" => fin(p_derived_predicate(i), d_derived_predicate),
        "domain" => fin(p_domain(i), d_domain),
        "domain_constraints_def" => fin(p_domain_constraints_def(i), d_domain_constraints_def),
        "duration_constraint" => fin(p_duration_constraint(i), d_duration_constraint),
        "effect" => fin(p_effect(i), d_effect),
        "f_assign_da" => fin(p_f_assign_da(i), d_f_assign_da),
        "f_comp" => fin(p_f_comp(i), d_f_comp),
        "f_exp" => fin(p_f_exp(i), d_f_exp),
        "f_exp_da" => fin(p_f_exp_da(i), d_f_exp_da),
        "f_exp_t" => fin(p_f_exp_t(i), d_f_exp_t),
        "f_head" => fin(p_f_head(i), d_f_head),
        "function_symbol" => fin(p_function_symbol(i), d_function_symbol),
        "function_term" => fin(p_function_term(i), d_function_term),
        "function_type" => fin(p_function_type(i), d_function_type),
        "functions_def" => fin(p_functions_def(i), d_functions_def),
        "gd" => fin(p_gd(i), d_gd),
        "problem_goal_def" => fin(p_problem_goal_def(i), d_problem_goal_def),
        "problem_init_def" => fin(p_problem_init_def(i), d_problem_init_def),
        "init_el" => fin(p_init_el(i), d_init_el),
        "interval" => fin(p_interval(i), d_interval),
        "problem_length_spec" => fin(p_problem_length_spec(i), d_problem_length_spec),
        "metric_f_exp" => fin(p_metric_f_exp(i), d_metric_f_exp),
        "problem_metric_spec" => fin(p_problem_metric_spec(i), d_problem_metric_spec),
        "multi_op" => fin(p_multi_op(i), d_multi_op),
        "name" => fin(p_name(i), d_name),
        "number" => fin(p_number(i), d_number),
        "problem_objects_declaration" => fin(p_problem_objects_declaration(i), d_problem_objects_declaration),
        "optimization" => fin(p_optimization(i), d_optimization),
        "p_effect" => fin(p_p_effect(i), d_p_effect),
        "pre_gd" => fin(p_pre_gd(i), d_pre_gd),
        "predicate" => fin(p_predicate(i), d_predicate),
        "predicates_def" => fin(p_predicates_def(i), d_predicates_def),
        "pref_con_gd" => fin(p_pref_con_gd(i), d_pref_con_gd),
        "pref_gd" => fin(p_pref_gd(i), d_pref_gd),
        "pref_name" => fin(p_pref_name(i), d_pref_name),
        "pref_timed_gd" => fin(p_pref_timed_gd(i), d_pref_timed_gd),
        "primitive_type" => fin(p_primitive_type(i), d_primitive_type),
        "problem" => fin(p_problem(i), d_problem),
        "problem_constraints_def" => fin(p_problem_constraints_def(i), d_problem_constraints_def),
        "require_def" => fin(p_require_def(i), d_require_def),
        "require_key" => fin(p_require_key(i), d_require_key),
        "simple_duration_constraint" => fin(p_simple_duration_constraint(i), d_simple_duration_constraint),
        "structure_def" => fin(p_structure_def(i), d_structure_def),
        "term" => fin(p_term(i), d_term),
        "time_specifier" => fin(p_time_specifier(i), d_time_specifier),
        "timed_effect" => fin(p_timed_effect(i), d_timed_effect),
        "timed_gd" => fin(p_timed_gd(i), d_timed_gd),
        "timeless_def" => fin(p_timeless_def(i), d_timeless_def),
        "type" => fin(p_type(i), d_type),
        "types_def" => fin(p_types_def(i), d_types_def),
        "variable" => fin(p_variable(i), d_variable),
        "con2_gd" => fin(p_con2_gd(i), d_con2_gd),
        _ => return None,
    })
}
