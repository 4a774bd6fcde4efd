//! Generated by gen_dump.py: the entry points of every parser: plain text (s_), and the trait Parser (t_).
use pddl::parsers::{self, ParseResult, Span};
use pddl::*;

pub fn s_action_def(i: &str) -> ParseResult<'_, ActionDefinition> {
    parsers::parse_action_def(i)
}
pub fn t_action_def_parse(i: Span<'_>) -> ParseResult<'_, ActionDefinition> {
    <ActionDefinition as Parser>::parse(i)
}
pub fn t_action_def_span(i: Span<'_>) -> ParseResult<'_, ActionDefinition> {
    <ActionDefinition as Parser>::parse_span(i)
}
pub fn t_action_def_text(i: Span<'_>) -> ParseResult<'_, ActionDefinition> {
    <ActionDefinition as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_action_def_str(i: Span<'_>) -> ParseResult<'_, ActionDefinition> {
    match (<ActionDefinition as Parser>::from_str(i.fragment()), parsers::parse_action_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_action_symbol(i: &str) -> ParseResult<'_, ActionSymbol> {
    parsers::parse_action_symbol(i)
}
pub fn t_action_symbol_parse(i: Span<'_>) -> ParseResult<'_, ActionSymbol> {
    <ActionSymbol as Parser>::parse(i)
}
pub fn t_action_symbol_span(i: Span<'_>) -> ParseResult<'_, ActionSymbol> {
    <ActionSymbol as Parser>::parse_span(i)
}
pub fn t_action_symbol_text(i: Span<'_>) -> ParseResult<'_, ActionSymbol> {
    <ActionSymbol as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_action_symbol_str(i: Span<'_>) -> ParseResult<'_, ActionSymbol> {
    match (<ActionSymbol as Parser>::from_str(i.fragment()), parsers::parse_action_symbol(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_assign_op(i: &str) -> ParseResult<'_, AssignOp> {
    parsers::parse_assign_op(i)
}
pub fn t_assign_op_parse(i: Span<'_>) -> ParseResult<'_, AssignOp> {
    <AssignOp as Parser>::parse(i)
}
pub fn t_assign_op_span(i: Span<'_>) -> ParseResult<'_, AssignOp> {
    <AssignOp as Parser>::parse_span(i)
}
pub fn t_assign_op_text(i: Span<'_>) -> ParseResult<'_, AssignOp> {
    <AssignOp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_assign_op_str(i: Span<'_>) -> ParseResult<'_, AssignOp> {
    match (<AssignOp as Parser>::from_str(i.fragment()), parsers::parse_assign_op(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_assign_op_t(i: &str) -> ParseResult<'_, AssignOpT> {
    parsers::parse_assign_op_t(i)
}
pub fn t_assign_op_t_parse(i: Span<'_>) -> ParseResult<'_, AssignOpT> {
    <AssignOpT as Parser>::parse(i)
}
pub fn t_assign_op_t_span(i: Span<'_>) -> ParseResult<'_, AssignOpT> {
    <AssignOpT as Parser>::parse_span(i)
}
pub fn t_assign_op_t_text(i: Span<'_>) -> ParseResult<'_, AssignOpT> {
    <AssignOpT as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_assign_op_t_str(i: Span<'_>) -> ParseResult<'_, AssignOpT> {
    match (<AssignOpT as Parser>::from_str(i.fragment()), parsers::parse_assign_op_t(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_atomic_formula_skeleton(i: &str) -> ParseResult<'_, AtomicFormulaSkeleton> {
    parsers::parse_atomic_formula_skeleton(i)
}
pub fn t_atomic_formula_skeleton_parse(i: Span<'_>) -> ParseResult<'_, AtomicFormulaSkeleton> {
    <AtomicFormulaSkeleton as Parser>::parse(i)
}
pub fn t_atomic_formula_skeleton_span(i: Span<'_>) -> ParseResult<'_, AtomicFormulaSkeleton> {
    <AtomicFormulaSkeleton as Parser>::parse_span(i)
}
pub fn t_atomic_formula_skeleton_text(i: Span<'_>) -> ParseResult<'_, AtomicFormulaSkeleton> {
    <AtomicFormulaSkeleton as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_atomic_formula_skeleton_str(i: Span<'_>) -> ParseResult<'_, AtomicFormulaSkeleton> {
    match (<AtomicFormulaSkeleton as Parser>::from_str(i.fragment()), parsers::parse_atomic_formula_skeleton(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_atomic_function_skeleton(i: &str) -> ParseResult<'_, AtomicFunctionSkeleton> {
    parsers::parse_atomic_function_skeleton(i)
}
pub fn t_atomic_function_skeleton_parse(i: Span<'_>) -> ParseResult<'_, AtomicFunctionSkeleton> {
    <AtomicFunctionSkeleton as Parser>::parse(i)
}
pub fn t_atomic_function_skeleton_span(i: Span<'_>) -> ParseResult<'_, AtomicFunctionSkeleton> {
    <AtomicFunctionSkeleton as Parser>::parse_span(i)
}
pub fn t_atomic_function_skeleton_text(i: Span<'_>) -> ParseResult<'_, AtomicFunctionSkeleton> {
    <AtomicFunctionSkeleton as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_atomic_function_skeleton_str(i: Span<'_>) -> ParseResult<'_, AtomicFunctionSkeleton> {
    match (<AtomicFunctionSkeleton as Parser>::from_str(i.fragment()), parsers::parse_atomic_function_skeleton(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_basic_function_term(i: &str) -> ParseResult<'_, BasicFunctionTerm> {
    parsers::parse_basic_function_term(i)
}
pub fn t_basic_function_term_parse(i: Span<'_>) -> ParseResult<'_, BasicFunctionTerm> {
    <BasicFunctionTerm as Parser>::parse(i)
}
pub fn t_basic_function_term_span(i: Span<'_>) -> ParseResult<'_, BasicFunctionTerm> {
    <BasicFunctionTerm as Parser>::parse_span(i)
}
pub fn t_basic_function_term_text(i: Span<'_>) -> ParseResult<'_, BasicFunctionTerm> {
    <BasicFunctionTerm as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_basic_function_term_str(i: Span<'_>) -> ParseResult<'_, BasicFunctionTerm> {
    match (<BasicFunctionTerm as Parser>::from_str(i.fragment()), parsers::parse_basic_function_term(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_binary_comp(i: &str) -> ParseResult<'_, BinaryComp> {
    parsers::parse_binary_comp(i)
}
pub fn t_binary_comp_parse(i: Span<'_>) -> ParseResult<'_, BinaryComp> {
    <BinaryComp as Parser>::parse(i)
}
pub fn t_binary_comp_span(i: Span<'_>) -> ParseResult<'_, BinaryComp> {
    <BinaryComp as Parser>::parse_span(i)
}
pub fn t_binary_comp_text(i: Span<'_>) -> ParseResult<'_, BinaryComp> {
    <BinaryComp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_binary_comp_str(i: Span<'_>) -> ParseResult<'_, BinaryComp> {
    match (<BinaryComp as Parser>::from_str(i.fragment()), parsers::parse_binary_comp(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_binary_op(i: &str) -> ParseResult<'_, BinaryOp> {
    parsers::parse_binary_op(i)
}
pub fn t_binary_op_parse(i: Span<'_>) -> ParseResult<'_, BinaryOp> {
    <BinaryOp as Parser>::parse(i)
}
pub fn t_binary_op_span(i: Span<'_>) -> ParseResult<'_, BinaryOp> {
    <BinaryOp as Parser>::parse_span(i)
}
pub fn t_binary_op_text(i: Span<'_>) -> ParseResult<'_, BinaryOp> {
    <BinaryOp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_binary_op_str(i: Span<'_>) -> ParseResult<'_, BinaryOp> {
    match (<BinaryOp as Parser>::from_str(i.fragment()), parsers::parse_binary_op(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_c_effect(i: &str) -> ParseResult<'_, CEffect> {
    parsers::parse_c_effect(i)
}
pub fn t_c_effect_parse(i: Span<'_>) -> ParseResult<'_, CEffect> {
    <CEffect as Parser>::parse(i)
}
pub fn t_c_effect_span(i: Span<'_>) -> ParseResult<'_, CEffect> {
    <CEffect as Parser>::parse_span(i)
}
pub fn t_c_effect_text(i: Span<'_>) -> ParseResult<'_, CEffect> {
    <CEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_c_effect_str(i: Span<'_>) -> ParseResult<'_, CEffect> {
    match (<CEffect as Parser>::from_str(i.fragment()), parsers::parse_c_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_forall_c_effect(i: &str) -> ParseResult<'_, ForallCEffect> {
    parsers::parse_forall_c_effect(i)
}
pub fn t_forall_c_effect_parse(i: Span<'_>) -> ParseResult<'_, ForallCEffect> {
    <ForallCEffect as Parser>::parse(i)
}
pub fn t_forall_c_effect_span(i: Span<'_>) -> ParseResult<'_, ForallCEffect> {
    <ForallCEffect as Parser>::parse_span(i)
}
pub fn t_forall_c_effect_text(i: Span<'_>) -> ParseResult<'_, ForallCEffect> {
    <ForallCEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_forall_c_effect_str(i: Span<'_>) -> ParseResult<'_, ForallCEffect> {
    match (<ForallCEffect as Parser>::from_str(i.fragment()), parsers::parse_forall_c_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_when_c_effect(i: &str) -> ParseResult<'_, WhenCEffect> {
    parsers::parse_when_c_effect(i)
}
pub fn t_when_c_effect_parse(i: Span<'_>) -> ParseResult<'_, WhenCEffect> {
    <WhenCEffect as Parser>::parse(i)
}
pub fn t_when_c_effect_span(i: Span<'_>) -> ParseResult<'_, WhenCEffect> {
    <WhenCEffect as Parser>::parse_span(i)
}
pub fn t_when_c_effect_text(i: Span<'_>) -> ParseResult<'_, WhenCEffect> {
    <WhenCEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_when_c_effect_str(i: Span<'_>) -> ParseResult<'_, WhenCEffect> {
    match (<WhenCEffect as Parser>::from_str(i.fragment()), parsers::parse_when_c_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_ignore_eol_comment(i: &str) -> ParseResult<'_, ()> {
    parsers::ignore_eol_comment(i)
}
pub fn s_con_gd(i: &str) -> ParseResult<'_, ConGD> {
    parsers::parse_con_gd(i)
}
pub fn t_con_gd_parse(i: Span<'_>) -> ParseResult<'_, ConGD> {
    <ConGD as Parser>::parse(i)
}
pub fn t_con_gd_span(i: Span<'_>) -> ParseResult<'_, ConGD> {
    <ConGD as Parser>::parse_span(i)
}
pub fn t_con_gd_text(i: Span<'_>) -> ParseResult<'_, ConGD> {
    <ConGD as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_con_gd_str(i: Span<'_>) -> ParseResult<'_, ConGD> {
    match (<ConGD as Parser>::from_str(i.fragment()), parsers::parse_con_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_cond_effect(i: &str) -> ParseResult<'_, ConditionalEffect> {
    parsers::parse_cond_effect(i)
}
pub fn t_cond_effect_parse(i: Span<'_>) -> ParseResult<'_, ConditionalEffect> {
    <ConditionalEffect as Parser>::parse(i)
}
pub fn t_cond_effect_span(i: Span<'_>) -> ParseResult<'_, ConditionalEffect> {
    <ConditionalEffect as Parser>::parse_span(i)
}
pub fn t_cond_effect_text(i: Span<'_>) -> ParseResult<'_, ConditionalEffect> {
    <ConditionalEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_cond_effect_str(i: Span<'_>) -> ParseResult<'_, ConditionalEffect> {
    match (<ConditionalEffect as Parser>::from_str(i.fragment()), parsers::parse_cond_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_constants_def(i: &str) -> ParseResult<'_, Constants> {
    parsers::parse_constants_def(i)
}
pub fn t_constants_def_parse(i: Span<'_>) -> ParseResult<'_, Constants> {
    <Constants as Parser>::parse(i)
}
pub fn t_constants_def_span(i: Span<'_>) -> ParseResult<'_, Constants> {
    <Constants as Parser>::parse_span(i)
}
pub fn t_constants_def_text(i: Span<'_>) -> ParseResult<'_, Constants> {
    <Constants as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_constants_def_str(i: Span<'_>) -> ParseResult<'_, Constants> {
    match (<Constants as Parser>::from_str(i.fragment()), parsers::parse_constants_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_d_op(i: &str) -> ParseResult<'_, DOp> {
    parsers::parse_d_op(i)
}
pub fn t_d_op_parse(i: Span<'_>) -> ParseResult<'_, DOp> {
    <DOp as Parser>::parse(i)
}
pub fn t_d_op_span(i: Span<'_>) -> ParseResult<'_, DOp> {
    <DOp as Parser>::parse_span(i)
}
pub fn t_d_op_text(i: Span<'_>) -> ParseResult<'_, DOp> {
    <DOp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_d_op_str(i: Span<'_>) -> ParseResult<'_, DOp> {
    match (<DOp as Parser>::from_str(i.fragment()), parsers::parse_d_op(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_d_value(i: &str) -> ParseResult<'_, DurationValue> {
    parsers::parse_d_value(i)
}
pub fn t_d_value_parse(i: Span<'_>) -> ParseResult<'_, DurationValue> {
    <DurationValue as Parser>::parse(i)
}
pub fn t_d_value_span(i: Span<'_>) -> ParseResult<'_, DurationValue> {
    <DurationValue as Parser>::parse_span(i)
}
pub fn t_d_value_text(i: Span<'_>) -> ParseResult<'_, DurationValue> {
    <DurationValue as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_d_value_str(i: Span<'_>) -> ParseResult<'_, DurationValue> {
    match (<DurationValue as Parser>::from_str(i.fragment()), parsers::parse_d_value(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_da_def(i: &str) -> ParseResult<'_, DurativeActionDefinition> {
    parsers::parse_da_def(i)
}
pub fn t_da_def_parse(i: Span<'_>) -> ParseResult<'_, DurativeActionDefinition> {
    <DurativeActionDefinition as Parser>::parse(i)
}
pub fn t_da_def_span(i: Span<'_>) -> ParseResult<'_, DurativeActionDefinition> {
    <DurativeActionDefinition as Parser>::parse_span(i)
}
pub fn t_da_def_text(i: Span<'_>) -> ParseResult<'_, DurativeActionDefinition> {
    <DurativeActionDefinition as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_da_def_str(i: Span<'_>) -> ParseResult<'_, DurativeActionDefinition> {
    match (<DurativeActionDefinition as Parser>::from_str(i.fragment()), parsers::parse_da_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_da_effect(i: &str) -> ParseResult<'_, DurativeActionEffect> {
    parsers::parse_da_effect(i)
}
pub fn t_da_effect_parse(i: Span<'_>) -> ParseResult<'_, DurativeActionEffect> {
    <DurativeActionEffect as Parser>::parse(i)
}
pub fn t_da_effect_span(i: Span<'_>) -> ParseResult<'_, DurativeActionEffect> {
    <DurativeActionEffect as Parser>::parse_span(i)
}
pub fn t_da_effect_text(i: Span<'_>) -> ParseResult<'_, DurativeActionEffect> {
    <DurativeActionEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_da_effect_str(i: Span<'_>) -> ParseResult<'_, DurativeActionEffect> {
    match (<DurativeActionEffect as Parser>::from_str(i.fragment()), parsers::parse_da_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_da_gd(i: &str) -> ParseResult<'_, DurativeActionGoalDefinition> {
    parsers::parse_da_gd(i)
}
pub fn t_da_gd_parse(i: Span<'_>) -> ParseResult<'_, DurativeActionGoalDefinition> {
    <DurativeActionGoalDefinition as Parser>::parse(i)
}
pub fn t_da_gd_span(i: Span<'_>) -> ParseResult<'_, DurativeActionGoalDefinition> {
    <DurativeActionGoalDefinition as Parser>::parse_span(i)
}
pub fn t_da_gd_text(i: Span<'_>) -> ParseResult<'_, DurativeActionGoalDefinition> {
    <DurativeActionGoalDefinition as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_da_gd_str(i: Span<'_>) -> ParseResult<'_, DurativeActionGoalDefinition> {
    match (<DurativeActionGoalDefinition as Parser>::from_str(i.fragment()), parsers::parse_da_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_da_symbol(i: &str) -> ParseResult<'_, DurativeActionSymbol> {
    parsers::parse_da_symbol(i)
}
pub fn t_da_symbol_parse(i: Span<'_>) -> ParseResult<'_, DurativeActionSymbol> {
    <DurativeActionSymbol as Parser>::parse(i)
}
pub fn t_da_symbol_span(i: Span<'_>) -> ParseResult<'_, DurativeActionSymbol> {
    <DurativeActionSymbol as Parser>::parse_span(i)
}
pub fn t_da_symbol_text(i: Span<'_>) -> ParseResult<'_, DurativeActionSymbol> {
    <DurativeActionSymbol as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_da_symbol_str(i: Span<'_>) -> ParseResult<'_, DurativeActionSymbol> {
    match (<DurativeActionSymbol as Parser>::from_str(i.fragment()), parsers::parse_da_symbol(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_derived_predicate(i: &str) -> ParseResult<'_, DerivedPredicate> {
    parsers::parse_derived_predicate(i)
}
pub fn t_derived_predicate_parse(i: Span<'_>) -> ParseResult<'_, DerivedPredicate> {
    <DerivedPredicate as Parser>::parse(i)
}
pub fn t_derived_predicate_span(i: Span<'_>) -> ParseResult<'_, DerivedPredicate> {
    <DerivedPredicate as Parser>::parse_span(i)
}
pub fn t_derived_predicate_text(i: Span<'_>) -> ParseResult<'_, DerivedPredicate> {
    <DerivedPredicate as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_derived_predicate_str(i: Span<'_>) -> ParseResult<'_, DerivedPredicate> {
    match (<DerivedPredicate as Parser>::from_str(i.fragment()), parsers::parse_derived_predicate(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_domain(i: &str) -> ParseResult<'_, Domain> {
    parsers::parse_domain(i)
}
pub fn t_domain_parse(i: Span<'_>) -> ParseResult<'_, Domain> {
    <Domain as Parser>::parse(i)
}
pub fn t_domain_span(i: Span<'_>) -> ParseResult<'_, Domain> {
    <Domain as Parser>::parse_span(i)
}
pub fn t_domain_text(i: Span<'_>) -> ParseResult<'_, Domain> {
    <Domain as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_domain_str(i: Span<'_>) -> ParseResult<'_, Domain> {
    match (<Domain as Parser>::from_str(i.fragment()), parsers::parse_domain(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_domain_constraints_def(i: &str) -> ParseResult<'_, DomainConstraintsDef> {
    parsers::parse_domain_constraints_def(i)
}
pub fn t_domain_constraints_def_parse(i: Span<'_>) -> ParseResult<'_, DomainConstraintsDef> {
    <DomainConstraintsDef as Parser>::parse(i)
}
pub fn t_domain_constraints_def_span(i: Span<'_>) -> ParseResult<'_, DomainConstraintsDef> {
    <DomainConstraintsDef as Parser>::parse_span(i)
}
pub fn t_domain_constraints_def_text(i: Span<'_>) -> ParseResult<'_, DomainConstraintsDef> {
    <DomainConstraintsDef as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_domain_constraints_def_str(i: Span<'_>) -> ParseResult<'_, DomainConstraintsDef> {
    match (<DomainConstraintsDef as Parser>::from_str(i.fragment()), parsers::parse_domain_constraints_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_duration_constraint(i: &str) -> ParseResult<'_, Option<DurationConstraint>> {
    parsers::parse_duration_constraint(i)
}
pub fn t_duration_constraint_parse(i: Span<'_>) -> ParseResult<'_, Option<DurationConstraint>> {
    <DurationConstraint as Parser>::parse(i)
}
pub fn t_duration_constraint_span(i: Span<'_>) -> ParseResult<'_, Option<DurationConstraint>> {
    <DurationConstraint as Parser>::parse_span(i)
}
pub fn t_duration_constraint_text(i: Span<'_>) -> ParseResult<'_, Option<DurationConstraint>> {
    <DurationConstraint as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_duration_constraint_str(i: Span<'_>) -> ParseResult<'_, Option<DurationConstraint>> {
    match (<DurationConstraint as Parser>::from_str(i.fragment()), parsers::parse_duration_constraint(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_effect(i: &str) -> ParseResult<'_, Effects> {
    parsers::parse_effect(i)
}
pub fn t_effect_parse(i: Span<'_>) -> ParseResult<'_, Effects> {
    <Effects as Parser>::parse(i)
}
pub fn t_effect_span(i: Span<'_>) -> ParseResult<'_, Effects> {
    <Effects as Parser>::parse_span(i)
}
pub fn t_effect_text(i: Span<'_>) -> ParseResult<'_, Effects> {
    <Effects as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_effect_str(i: Span<'_>) -> ParseResult<'_, Effects> {
    match (<Effects as Parser>::from_str(i.fragment()), parsers::parse_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_f_assign_da(i: &str) -> ParseResult<'_, FAssignDa> {
    parsers::parse_f_assign_da(i)
}
pub fn t_f_assign_da_parse(i: Span<'_>) -> ParseResult<'_, FAssignDa> {
    <FAssignDa as Parser>::parse(i)
}
pub fn t_f_assign_da_span(i: Span<'_>) -> ParseResult<'_, FAssignDa> {
    <FAssignDa as Parser>::parse_span(i)
}
pub fn t_f_assign_da_text(i: Span<'_>) -> ParseResult<'_, FAssignDa> {
    <FAssignDa as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_f_assign_da_str(i: Span<'_>) -> ParseResult<'_, FAssignDa> {
    match (<FAssignDa as Parser>::from_str(i.fragment()), parsers::parse_f_assign_da(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_f_comp(i: &str) -> ParseResult<'_, FComp> {
    parsers::parse_f_comp(i)
}
pub fn t_f_comp_parse(i: Span<'_>) -> ParseResult<'_, FComp> {
    <FComp as Parser>::parse(i)
}
pub fn t_f_comp_span(i: Span<'_>) -> ParseResult<'_, FComp> {
    <FComp as Parser>::parse_span(i)
}
pub fn t_f_comp_text(i: Span<'_>) -> ParseResult<'_, FComp> {
    <FComp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_f_comp_str(i: Span<'_>) -> ParseResult<'_, FComp> {
    match (<FComp as Parser>::from_str(i.fragment()), parsers::parse_f_comp(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_f_exp(i: &str) -> ParseResult<'_, FExp> {
    parsers::parse_f_exp(i)
}
pub fn t_f_exp_parse(i: Span<'_>) -> ParseResult<'_, FExp> {
    <FExp as Parser>::parse(i)
}
pub fn t_f_exp_span(i: Span<'_>) -> ParseResult<'_, FExp> {
    <FExp as Parser>::parse_span(i)
}
pub fn t_f_exp_text(i: Span<'_>) -> ParseResult<'_, FExp> {
    <FExp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_f_exp_str(i: Span<'_>) -> ParseResult<'_, FExp> {
    match (<FExp as Parser>::from_str(i.fragment()), parsers::parse_f_exp(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_f_exp_da(i: &str) -> ParseResult<'_, FExpDa> {
    parsers::parse_f_exp_da(i)
}
pub fn t_f_exp_da_parse(i: Span<'_>) -> ParseResult<'_, FExpDa> {
    <FExpDa as Parser>::parse(i)
}
pub fn t_f_exp_da_span(i: Span<'_>) -> ParseResult<'_, FExpDa> {
    <FExpDa as Parser>::parse_span(i)
}
pub fn t_f_exp_da_text(i: Span<'_>) -> ParseResult<'_, FExpDa> {
    <FExpDa as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_f_exp_da_str(i: Span<'_>) -> ParseResult<'_, FExpDa> {
    match (<FExpDa as Parser>::from_str(i.fragment()), parsers::parse_f_exp_da(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_f_exp_t(i: &str) -> ParseResult<'_, FExpT> {
    parsers::parse_f_exp_t(i)
}
pub fn t_f_exp_t_parse(i: Span<'_>) -> ParseResult<'_, FExpT> {
    <FExpT as Parser>::parse(i)
}
pub fn t_f_exp_t_span(i: Span<'_>) -> ParseResult<'_, FExpT> {
    <FExpT as Parser>::parse_span(i)
}
pub fn t_f_exp_t_text(i: Span<'_>) -> ParseResult<'_, FExpT> {
    <FExpT as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_f_exp_t_str(i: Span<'_>) -> ParseResult<'_, FExpT> {
    match (<FExpT as Parser>::from_str(i.fragment()), parsers::parse_f_exp_t(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_f_head(i: &str) -> ParseResult<'_, FHead> {
    parsers::parse_f_head(i)
}
pub fn t_f_head_parse(i: Span<'_>) -> ParseResult<'_, FHead> {
    <FHead as Parser>::parse(i)
}
pub fn t_f_head_span(i: Span<'_>) -> ParseResult<'_, FHead> {
    <FHead as Parser>::parse_span(i)
}
pub fn t_f_head_text(i: Span<'_>) -> ParseResult<'_, FHead> {
    <FHead as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_f_head_str(i: Span<'_>) -> ParseResult<'_, FHead> {
    match (<FHead as Parser>::from_str(i.fragment()), parsers::parse_f_head(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_function_symbol(i: &str) -> ParseResult<'_, FunctionSymbol> {
    parsers::parse_function_symbol(i)
}
pub fn t_function_symbol_parse(i: Span<'_>) -> ParseResult<'_, FunctionSymbol> {
    <FunctionSymbol as Parser>::parse(i)
}
pub fn t_function_symbol_span(i: Span<'_>) -> ParseResult<'_, FunctionSymbol> {
    <FunctionSymbol as Parser>::parse_span(i)
}
pub fn t_function_symbol_text(i: Span<'_>) -> ParseResult<'_, FunctionSymbol> {
    <FunctionSymbol as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_function_symbol_str(i: Span<'_>) -> ParseResult<'_, FunctionSymbol> {
    match (<FunctionSymbol as Parser>::from_str(i.fragment()), parsers::parse_function_symbol(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_function_term(i: &str) -> ParseResult<'_, FunctionTerm> {
    parsers::parse_function_term(i)
}
pub fn t_function_term_parse(i: Span<'_>) -> ParseResult<'_, FunctionTerm> {
    <FunctionTerm as Parser>::parse(i)
}
pub fn t_function_term_span(i: Span<'_>) -> ParseResult<'_, FunctionTerm> {
    <FunctionTerm as Parser>::parse_span(i)
}
pub fn t_function_term_text(i: Span<'_>) -> ParseResult<'_, FunctionTerm> {
    <FunctionTerm as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_function_term_str(i: Span<'_>) -> ParseResult<'_, FunctionTerm> {
    match (<FunctionTerm as Parser>::from_str(i.fragment()), parsers::parse_function_term(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_function_type(i: &str) -> ParseResult<'_, FunctionType> {
    parsers::parse_function_type(i)
}
pub fn t_function_type_parse(i: Span<'_>) -> ParseResult<'_, FunctionType> {
    <FunctionType as Parser>::parse(i)
}
pub fn t_function_type_span(i: Span<'_>) -> ParseResult<'_, FunctionType> {
    <FunctionType as Parser>::parse_span(i)
}
pub fn t_function_type_text(i: Span<'_>) -> ParseResult<'_, FunctionType> {
    <FunctionType as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_function_type_str(i: Span<'_>) -> ParseResult<'_, FunctionType> {
    match (<FunctionType as Parser>::from_str(i.fragment()), parsers::parse_function_type(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_functions_def(i: &str) -> ParseResult<'_, Functions> {
    parsers::parse_functions_def(i)
}
pub fn t_functions_def_parse(i: Span<'_>) -> ParseResult<'_, Functions> {
    <Functions as Parser>::parse(i)
}
pub fn t_functions_def_span(i: Span<'_>) -> ParseResult<'_, Functions> {
    <Functions as Parser>::parse_span(i)
}
pub fn t_functions_def_text(i: Span<'_>) -> ParseResult<'_, Functions> {
    <Functions as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_functions_def_str(i: Span<'_>) -> ParseResult<'_, Functions> {
    match (<Functions as Parser>::from_str(i.fragment()), parsers::parse_functions_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_gd(i: &str) -> ParseResult<'_, GoalDefinition> {
    parsers::parse_gd(i)
}
pub fn t_gd_parse(i: Span<'_>) -> ParseResult<'_, GoalDefinition> {
    <GoalDefinition as Parser>::parse(i)
}
pub fn t_gd_span(i: Span<'_>) -> ParseResult<'_, GoalDefinition> {
    <GoalDefinition as Parser>::parse_span(i)
}
pub fn t_gd_text(i: Span<'_>) -> ParseResult<'_, GoalDefinition> {
    <GoalDefinition as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_gd_str(i: Span<'_>) -> ParseResult<'_, GoalDefinition> {
    match (<GoalDefinition as Parser>::from_str(i.fragment()), parsers::parse_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem_goal_def(i: &str) -> ParseResult<'_, GoalDef> {
    parsers::parse_problem_goal_def(i)
}
pub fn t_problem_goal_def_parse(i: Span<'_>) -> ParseResult<'_, GoalDef> {
    <GoalDef as Parser>::parse(i)
}
pub fn t_problem_goal_def_span(i: Span<'_>) -> ParseResult<'_, GoalDef> {
    <GoalDef as Parser>::parse_span(i)
}
pub fn t_problem_goal_def_text(i: Span<'_>) -> ParseResult<'_, GoalDef> {
    <GoalDef as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_goal_def_str(i: Span<'_>) -> ParseResult<'_, GoalDef> {
    match (<GoalDef as Parser>::from_str(i.fragment()), parsers::parse_problem_goal_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem_init_def(i: &str) -> ParseResult<'_, InitElements> {
    parsers::parse_problem_init_def(i)
}
pub fn t_problem_init_def_parse(i: Span<'_>) -> ParseResult<'_, InitElements> {
    <InitElements as Parser>::parse(i)
}
pub fn t_problem_init_def_span(i: Span<'_>) -> ParseResult<'_, InitElements> {
    <InitElements as Parser>::parse_span(i)
}
pub fn t_problem_init_def_text(i: Span<'_>) -> ParseResult<'_, InitElements> {
    <InitElements as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_init_def_str(i: Span<'_>) -> ParseResult<'_, InitElements> {
    match (<InitElements as Parser>::from_str(i.fragment()), parsers::parse_problem_init_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_init_el(i: &str) -> ParseResult<'_, InitElement> {
    parsers::parse_init_el(i)
}
pub fn t_init_el_parse(i: Span<'_>) -> ParseResult<'_, InitElement> {
    <InitElement as Parser>::parse(i)
}
pub fn t_init_el_span(i: Span<'_>) -> ParseResult<'_, InitElement> {
    <InitElement as Parser>::parse_span(i)
}
pub fn t_init_el_text(i: Span<'_>) -> ParseResult<'_, InitElement> {
    <InitElement as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_init_el_str(i: Span<'_>) -> ParseResult<'_, InitElement> {
    match (<InitElement as Parser>::from_str(i.fragment()), parsers::parse_init_el(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_interval(i: &str) -> ParseResult<'_, Interval> {
    parsers::parse_interval(i)
}
pub fn t_interval_parse(i: Span<'_>) -> ParseResult<'_, Interval> {
    <Interval as Parser>::parse(i)
}
pub fn t_interval_span(i: Span<'_>) -> ParseResult<'_, Interval> {
    <Interval as Parser>::parse_span(i)
}
pub fn t_interval_text(i: Span<'_>) -> ParseResult<'_, Interval> {
    <Interval as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_interval_str(i: Span<'_>) -> ParseResult<'_, Interval> {
    match (<Interval as Parser>::from_str(i.fragment()), parsers::parse_interval(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem_length_spec(i: &str) -> ParseResult<'_, LengthSpec> {
    parsers::parse_problem_length_spec(i)
}
pub fn t_problem_length_spec_parse(i: Span<'_>) -> ParseResult<'_, LengthSpec> {
    <LengthSpec as Parser>::parse(i)
}
pub fn t_problem_length_spec_span(i: Span<'_>) -> ParseResult<'_, LengthSpec> {
    <LengthSpec as Parser>::parse_span(i)
}
pub fn t_problem_length_spec_text(i: Span<'_>) -> ParseResult<'_, LengthSpec> {
    <LengthSpec as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_length_spec_str(i: Span<'_>) -> ParseResult<'_, LengthSpec> {
    match (<LengthSpec as Parser>::from_str(i.fragment()), parsers::parse_problem_length_spec(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_metric_f_exp(i: &str) -> ParseResult<'_, MetricFExp> {
    parsers::parse_metric_f_exp(i)
}
pub fn t_metric_f_exp_parse(i: Span<'_>) -> ParseResult<'_, MetricFExp> {
    <MetricFExp as Parser>::parse(i)
}
pub fn t_metric_f_exp_span(i: Span<'_>) -> ParseResult<'_, MetricFExp> {
    <MetricFExp as Parser>::parse_span(i)
}
pub fn t_metric_f_exp_text(i: Span<'_>) -> ParseResult<'_, MetricFExp> {
    <MetricFExp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_metric_f_exp_str(i: Span<'_>) -> ParseResult<'_, MetricFExp> {
    match (<MetricFExp as Parser>::from_str(i.fragment()), parsers::parse_metric_f_exp(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem_metric_spec(i: &str) -> ParseResult<'_, MetricSpec> {
    parsers::parse_problem_metric_spec(i)
}
pub fn t_problem_metric_spec_parse(i: Span<'_>) -> ParseResult<'_, MetricSpec> {
    <MetricSpec as Parser>::parse(i)
}
pub fn t_problem_metric_spec_span(i: Span<'_>) -> ParseResult<'_, MetricSpec> {
    <MetricSpec as Parser>::parse_span(i)
}
pub fn t_problem_metric_spec_text(i: Span<'_>) -> ParseResult<'_, MetricSpec> {
    <MetricSpec as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_metric_spec_str(i: Span<'_>) -> ParseResult<'_, MetricSpec> {
    match (<MetricSpec as Parser>::from_str(i.fragment()), parsers::parse_problem_metric_spec(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_multi_op(i: &str) -> ParseResult<'_, MultiOp> {
    parsers::parse_multi_op(i)
}
pub fn t_multi_op_parse(i: Span<'_>) -> ParseResult<'_, MultiOp> {
    <MultiOp as Parser>::parse(i)
}
pub fn t_multi_op_span(i: Span<'_>) -> ParseResult<'_, MultiOp> {
    <MultiOp as Parser>::parse_span(i)
}
pub fn t_multi_op_text(i: Span<'_>) -> ParseResult<'_, MultiOp> {
    <MultiOp as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_multi_op_str(i: Span<'_>) -> ParseResult<'_, MultiOp> {
    match (<MultiOp as Parser>::from_str(i.fragment()), parsers::parse_multi_op(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_name(i: &str) -> ParseResult<'_, Name> {
    parsers::parse_name(i)
}
pub fn t_name_parse(i: Span<'_>) -> ParseResult<'_, Name> {
    <Name as Parser>::parse(i)
}
pub fn t_name_span(i: Span<'_>) -> ParseResult<'_, Name> {
    <Name as Parser>::parse_span(i)
}
pub fn t_name_text(i: Span<'_>) -> ParseResult<'_, Name> {
    <Name as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_name_str(i: Span<'_>) -> ParseResult<'_, Name> {
    match (<Name as Parser>::from_str(i.fragment()), parsers::parse_name(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_number(i: &str) -> ParseResult<'_, Number> {
    parsers::parse_number(i)
}
pub fn t_number_parse(i: Span<'_>) -> ParseResult<'_, Number> {
    <Number as Parser>::parse(i)
}
pub fn t_number_span(i: Span<'_>) -> ParseResult<'_, Number> {
    <Number as Parser>::parse_span(i)
}
pub fn t_number_text(i: Span<'_>) -> ParseResult<'_, Number> {
    <Number as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_number_str(i: Span<'_>) -> ParseResult<'_, Number> {
    match (<Number as Parser>::from_str(i.fragment()), parsers::parse_number(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem_objects_declaration(i: &str) -> ParseResult<'_, Objects> {
    parsers::parse_problem_objects_declaration(i)
}
pub fn t_problem_objects_declaration_parse(i: Span<'_>) -> ParseResult<'_, Objects> {
    <Objects as Parser>::parse(i)
}
pub fn t_problem_objects_declaration_span(i: Span<'_>) -> ParseResult<'_, Objects> {
    <Objects as Parser>::parse_span(i)
}
pub fn t_problem_objects_declaration_text(i: Span<'_>) -> ParseResult<'_, Objects> {
    <Objects as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_objects_declaration_str(i: Span<'_>) -> ParseResult<'_, Objects> {
    match (<Objects as Parser>::from_str(i.fragment()), parsers::parse_problem_objects_declaration(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_optimization(i: &str) -> ParseResult<'_, Optimization> {
    parsers::parse_optimization(i)
}
pub fn t_optimization_parse(i: Span<'_>) -> ParseResult<'_, Optimization> {
    <Optimization as Parser>::parse(i)
}
pub fn t_optimization_span(i: Span<'_>) -> ParseResult<'_, Optimization> {
    <Optimization as Parser>::parse_span(i)
}
pub fn t_optimization_text(i: Span<'_>) -> ParseResult<'_, Optimization> {
    <Optimization as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_optimization_str(i: Span<'_>) -> ParseResult<'_, Optimization> {
    match (<Optimization as Parser>::from_str(i.fragment()), parsers::parse_optimization(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_p_effect(i: &str) -> ParseResult<'_, PEffect> {
    parsers::parse_p_effect(i)
}
pub fn t_p_effect_parse(i: Span<'_>) -> ParseResult<'_, PEffect> {
    <PEffect as Parser>::parse(i)
}
pub fn t_p_effect_span(i: Span<'_>) -> ParseResult<'_, PEffect> {
    <PEffect as Parser>::parse_span(i)
}
pub fn t_p_effect_text(i: Span<'_>) -> ParseResult<'_, PEffect> {
    <PEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_p_effect_str(i: Span<'_>) -> ParseResult<'_, PEffect> {
    match (<PEffect as Parser>::from_str(i.fragment()), parsers::parse_p_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_pre_gd(i: &str) -> ParseResult<'_, PreconditionGoalDefinitions> {
    parsers::parse_pre_gd(i)
}
pub fn t_pre_gd_parse(i: Span<'_>) -> ParseResult<'_, PreconditionGoalDefinitions> {
    <PreconditionGoalDefinitions as Parser>::parse(i)
}
pub fn t_pre_gd_span(i: Span<'_>) -> ParseResult<'_, PreconditionGoalDefinitions> {
    <PreconditionGoalDefinitions as Parser>::parse_span(i)
}
pub fn t_pre_gd_text(i: Span<'_>) -> ParseResult<'_, PreconditionGoalDefinitions> {
    <PreconditionGoalDefinitions as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_pre_gd_str(i: Span<'_>) -> ParseResult<'_, PreconditionGoalDefinitions> {
    match (<PreconditionGoalDefinitions as Parser>::from_str(i.fragment()), parsers::parse_pre_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_predicate(i: &str) -> ParseResult<'_, Predicate> {
    parsers::parse_predicate(i)
}
pub fn t_predicate_parse(i: Span<'_>) -> ParseResult<'_, Predicate> {
    <Predicate as Parser>::parse(i)
}
pub fn t_predicate_span(i: Span<'_>) -> ParseResult<'_, Predicate> {
    <Predicate as Parser>::parse_span(i)
}
pub fn t_predicate_text(i: Span<'_>) -> ParseResult<'_, Predicate> {
    <Predicate as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_predicate_str(i: Span<'_>) -> ParseResult<'_, Predicate> {
    match (<Predicate as Parser>::from_str(i.fragment()), parsers::parse_predicate(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_predicates_def(i: &str) -> ParseResult<'_, PredicateDefinitions> {
    parsers::parse_predicates_def(i)
}
pub fn t_predicates_def_parse(i: Span<'_>) -> ParseResult<'_, PredicateDefinitions> {
    <PredicateDefinitions as Parser>::parse(i)
}
pub fn t_predicates_def_span(i: Span<'_>) -> ParseResult<'_, PredicateDefinitions> {
    <PredicateDefinitions as Parser>::parse_span(i)
}
pub fn t_predicates_def_text(i: Span<'_>) -> ParseResult<'_, PredicateDefinitions> {
    <PredicateDefinitions as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_predicates_def_str(i: Span<'_>) -> ParseResult<'_, PredicateDefinitions> {
    match (<PredicateDefinitions as Parser>::from_str(i.fragment()), parsers::parse_predicates_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_pref_con_gd(i: &str) -> ParseResult<'_, PrefConGDs> {
    parsers::parse_pref_con_gd(i)
}
pub fn t_pref_con_gd_parse(i: Span<'_>) -> ParseResult<'_, PrefConGDs> {
    <PrefConGDs as Parser>::parse(i)
}
pub fn t_pref_con_gd_span(i: Span<'_>) -> ParseResult<'_, PrefConGDs> {
    <PrefConGDs as Parser>::parse_span(i)
}
pub fn t_pref_con_gd_text(i: Span<'_>) -> ParseResult<'_, PrefConGDs> {
    <PrefConGDs as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_pref_con_gd_str(i: Span<'_>) -> ParseResult<'_, PrefConGDs> {
    match (<PrefConGDs as Parser>::from_str(i.fragment()), parsers::parse_pref_con_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_pref_gd(i: &str) -> ParseResult<'_, PreferenceGD> {
    parsers::parse_pref_gd(i)
}
pub fn t_pref_gd_parse(i: Span<'_>) -> ParseResult<'_, PreferenceGD> {
    <PreferenceGD as Parser>::parse(i)
}
pub fn t_pref_gd_span(i: Span<'_>) -> ParseResult<'_, PreferenceGD> {
    <PreferenceGD as Parser>::parse_span(i)
}
pub fn t_pref_gd_text(i: Span<'_>) -> ParseResult<'_, PreferenceGD> {
    <PreferenceGD as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_pref_gd_str(i: Span<'_>) -> ParseResult<'_, PreferenceGD> {
    match (<PreferenceGD as Parser>::from_str(i.fragment()), parsers::parse_pref_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_pref_name(i: &str) -> ParseResult<'_, PreferenceName> {
    parsers::parse_pref_name(i)
}
pub fn t_pref_name_parse(i: Span<'_>) -> ParseResult<'_, PreferenceName> {
    <PreferenceName as Parser>::parse(i)
}
pub fn t_pref_name_span(i: Span<'_>) -> ParseResult<'_, PreferenceName> {
    <PreferenceName as Parser>::parse_span(i)
}
pub fn t_pref_name_text(i: Span<'_>) -> ParseResult<'_, PreferenceName> {
    <PreferenceName as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_pref_name_str(i: Span<'_>) -> ParseResult<'_, PreferenceName> {
    match (<PreferenceName as Parser>::from_str(i.fragment()), parsers::parse_pref_name(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_pref_timed_gd(i: &str) -> ParseResult<'_, PrefTimedGD> {
    parsers::parse_pref_timed_gd(i)
}
pub fn t_pref_timed_gd_parse(i: Span<'_>) -> ParseResult<'_, PrefTimedGD> {
    <PrefTimedGD as Parser>::parse(i)
}
pub fn t_pref_timed_gd_span(i: Span<'_>) -> ParseResult<'_, PrefTimedGD> {
    <PrefTimedGD as Parser>::parse_span(i)
}
pub fn t_pref_timed_gd_text(i: Span<'_>) -> ParseResult<'_, PrefTimedGD> {
    <PrefTimedGD as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_pref_timed_gd_str(i: Span<'_>) -> ParseResult<'_, PrefTimedGD> {
    match (<PrefTimedGD as Parser>::from_str(i.fragment()), parsers::parse_pref_timed_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_primitive_type(i: &str) -> ParseResult<'_, PrimitiveType> {
    parsers::parse_primitive_type(i)
}
pub fn t_primitive_type_parse(i: Span<'_>) -> ParseResult<'_, PrimitiveType> {
    <PrimitiveType as Parser>::parse(i)
}
pub fn t_primitive_type_span(i: Span<'_>) -> ParseResult<'_, PrimitiveType> {
    <PrimitiveType as Parser>::parse_span(i)
}
pub fn t_primitive_type_text(i: Span<'_>) -> ParseResult<'_, PrimitiveType> {
    <PrimitiveType as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_primitive_type_str(i: Span<'_>) -> ParseResult<'_, PrimitiveType> {
    match (<PrimitiveType as Parser>::from_str(i.fragment()), parsers::parse_primitive_type(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem(i: &str) -> ParseResult<'_, Problem> {
    parsers::parse_problem(i)
}
pub fn t_problem_parse(i: Span<'_>) -> ParseResult<'_, Problem> {
    <Problem as Parser>::parse(i)
}
pub fn t_problem_span(i: Span<'_>) -> ParseResult<'_, Problem> {
    <Problem as Parser>::parse_span(i)
}
pub fn t_problem_text(i: Span<'_>) -> ParseResult<'_, Problem> {
    <Problem as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_str(i: Span<'_>) -> ParseResult<'_, Problem> {
    match (<Problem as Parser>::from_str(i.fragment()), parsers::parse_problem(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_problem_constraints_def(i: &str) -> ParseResult<'_, ProblemConstraintsDef> {
    parsers::parse_problem_constraints_def(i)
}
pub fn t_problem_constraints_def_parse(i: Span<'_>) -> ParseResult<'_, ProblemConstraintsDef> {
    <ProblemConstraintsDef as Parser>::parse(i)
}
pub fn t_problem_constraints_def_span(i: Span<'_>) -> ParseResult<'_, ProblemConstraintsDef> {
    <ProblemConstraintsDef as Parser>::parse_span(i)
}
pub fn t_problem_constraints_def_text(i: Span<'_>) -> ParseResult<'_, ProblemConstraintsDef> {
    <ProblemConstraintsDef as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_problem_constraints_def_str(i: Span<'_>) -> ParseResult<'_, ProblemConstraintsDef> {
    match (<ProblemConstraintsDef as Parser>::from_str(i.fragment()), parsers::parse_problem_constraints_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_require_def(i: &str) -> ParseResult<'_, Requirements> {
    parsers::parse_require_def(i)
}
pub fn t_require_def_parse(i: Span<'_>) -> ParseResult<'_, Requirements> {
    <Requirements as Parser>::parse(i)
}
pub fn t_require_def_span(i: Span<'_>) -> ParseResult<'_, Requirements> {
    <Requirements as Parser>::parse_span(i)
}
pub fn t_require_def_text(i: Span<'_>) -> ParseResult<'_, Requirements> {
    <Requirements as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_require_def_str(i: Span<'_>) -> ParseResult<'_, Requirements> {
    match (<Requirements as Parser>::from_str(i.fragment()), parsers::parse_require_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_require_key(i: &str) -> ParseResult<'_, Requirement> {
    parsers::parse_require_key(i)
}
pub fn t_require_key_parse(i: Span<'_>) -> ParseResult<'_, Requirement> {
    <Requirement as Parser>::parse(i)
}
pub fn t_require_key_span(i: Span<'_>) -> ParseResult<'_, Requirement> {
    <Requirement as Parser>::parse_span(i)
}
pub fn t_require_key_text(i: Span<'_>) -> ParseResult<'_, Requirement> {
    <Requirement as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_require_key_str(i: Span<'_>) -> ParseResult<'_, Requirement> {
    match (<Requirement as Parser>::from_str(i.fragment()), parsers::parse_require_key(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_simple_duration_constraint(i: &str) -> ParseResult<'_, SimpleDurationConstraint> {
    parsers::parse_simple_duration_constraint(i)
}
pub fn t_simple_duration_constraint_parse(i: Span<'_>) -> ParseResult<'_, SimpleDurationConstraint> {
    <SimpleDurationConstraint as Parser>::parse(i)
}
pub fn t_simple_duration_constraint_span(i: Span<'_>) -> ParseResult<'_, SimpleDurationConstraint> {
    <SimpleDurationConstraint as Parser>::parse_span(i)
}
pub fn t_simple_duration_constraint_text(i: Span<'_>) -> ParseResult<'_, SimpleDurationConstraint> {
    <SimpleDurationConstraint as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_simple_duration_constraint_str(i: Span<'_>) -> ParseResult<'_, SimpleDurationConstraint> {
    match (<SimpleDurationConstraint as Parser>::from_str(i.fragment()), parsers::parse_simple_duration_constraint(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_structure_def(i: &str) -> ParseResult<'_, StructureDef> {
    parsers::parse_structure_def(i)
}
pub fn t_structure_def_parse(i: Span<'_>) -> ParseResult<'_, StructureDef> {
    <StructureDef as Parser>::parse(i)
}
pub fn t_structure_def_span(i: Span<'_>) -> ParseResult<'_, StructureDef> {
    <StructureDef as Parser>::parse_span(i)
}
pub fn t_structure_def_text(i: Span<'_>) -> ParseResult<'_, StructureDef> {
    <StructureDef as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_structure_def_str(i: Span<'_>) -> ParseResult<'_, StructureDef> {
    match (<StructureDef as Parser>::from_str(i.fragment()), parsers::parse_structure_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_term(i: &str) -> ParseResult<'_, Term> {
    parsers::parse_term(i)
}
pub fn t_term_parse(i: Span<'_>) -> ParseResult<'_, Term> {
    <Term as Parser>::parse(i)
}
pub fn t_term_span(i: Span<'_>) -> ParseResult<'_, Term> {
    <Term as Parser>::parse_span(i)
}
pub fn t_term_text(i: Span<'_>) -> ParseResult<'_, Term> {
    <Term as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_term_str(i: Span<'_>) -> ParseResult<'_, Term> {
    match (<Term as Parser>::from_str(i.fragment()), parsers::parse_term(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_time_specifier(i: &str) -> ParseResult<'_, TimeSpecifier> {
    parsers::parse_time_specifier(i)
}
pub fn t_time_specifier_parse(i: Span<'_>) -> ParseResult<'_, TimeSpecifier> {
    <TimeSpecifier as Parser>::parse(i)
}
pub fn t_time_specifier_span(i: Span<'_>) -> ParseResult<'_, TimeSpecifier> {
    <TimeSpecifier as Parser>::parse_span(i)
}
pub fn t_time_specifier_text(i: Span<'_>) -> ParseResult<'_, TimeSpecifier> {
    <TimeSpecifier as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_time_specifier_str(i: Span<'_>) -> ParseResult<'_, TimeSpecifier> {
    match (<TimeSpecifier as Parser>::from_str(i.fragment()), parsers::parse_time_specifier(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_timed_effect(i: &str) -> ParseResult<'_, TimedEffect> {
    parsers::parse_timed_effect(i)
}
pub fn t_timed_effect_parse(i: Span<'_>) -> ParseResult<'_, TimedEffect> {
    <TimedEffect as Parser>::parse(i)
}
pub fn t_timed_effect_span(i: Span<'_>) -> ParseResult<'_, TimedEffect> {
    <TimedEffect as Parser>::parse_span(i)
}
pub fn t_timed_effect_text(i: Span<'_>) -> ParseResult<'_, TimedEffect> {
    <TimedEffect as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_timed_effect_str(i: Span<'_>) -> ParseResult<'_, TimedEffect> {
    match (<TimedEffect as Parser>::from_str(i.fragment()), parsers::parse_timed_effect(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_timed_gd(i: &str) -> ParseResult<'_, TimedGD> {
    parsers::parse_timed_gd(i)
}
pub fn t_timed_gd_parse(i: Span<'_>) -> ParseResult<'_, TimedGD> {
    <TimedGD as Parser>::parse(i)
}
pub fn t_timed_gd_span(i: Span<'_>) -> ParseResult<'_, TimedGD> {
    <TimedGD as Parser>::parse_span(i)
}
pub fn t_timed_gd_text(i: Span<'_>) -> ParseResult<'_, TimedGD> {
    <TimedGD as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_timed_gd_str(i: Span<'_>) -> ParseResult<'_, TimedGD> {
    match (<TimedGD as Parser>::from_str(i.fragment()), parsers::parse_timed_gd(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_timeless_def(i: &str) -> ParseResult<'_, Timeless> {
    parsers::parse_timeless_def(i)
}
pub fn t_timeless_def_parse(i: Span<'_>) -> ParseResult<'_, Timeless> {
    <Timeless as Parser>::parse(i)
}
pub fn t_timeless_def_span(i: Span<'_>) -> ParseResult<'_, Timeless> {
    <Timeless as Parser>::parse_span(i)
}
pub fn t_timeless_def_text(i: Span<'_>) -> ParseResult<'_, Timeless> {
    <Timeless as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_timeless_def_str(i: Span<'_>) -> ParseResult<'_, Timeless> {
    match (<Timeless as Parser>::from_str(i.fragment()), parsers::parse_timeless_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_type(i: &str) -> ParseResult<'_, Type> {
    parsers::parse_type(i)
}
pub fn t_type_parse(i: Span<'_>) -> ParseResult<'_, Type> {
    <Type as Parser>::parse(i)
}
pub fn t_type_span(i: Span<'_>) -> ParseResult<'_, Type> {
    <Type as Parser>::parse_span(i)
}
pub fn t_type_text(i: Span<'_>) -> ParseResult<'_, Type> {
    <Type as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_type_str(i: Span<'_>) -> ParseResult<'_, Type> {
    match (<Type as Parser>::from_str(i.fragment()), parsers::parse_type(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_types_def(i: &str) -> ParseResult<'_, Types> {
    parsers::parse_types_def(i)
}
pub fn t_types_def_parse(i: Span<'_>) -> ParseResult<'_, Types> {
    <Types as Parser>::parse(i)
}
pub fn t_types_def_span(i: Span<'_>) -> ParseResult<'_, Types> {
    <Types as Parser>::parse_span(i)
}
pub fn t_types_def_text(i: Span<'_>) -> ParseResult<'_, Types> {
    <Types as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_types_def_str(i: Span<'_>) -> ParseResult<'_, Types> {
    match (<Types as Parser>::from_str(i.fragment()), parsers::parse_types_def(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_variable(i: &str) -> ParseResult<'_, Variable> {
    parsers::parse_variable(i)
}
pub fn t_variable_parse(i: Span<'_>) -> ParseResult<'_, Variable> {
    <Variable as Parser>::parse(i)
}
pub fn t_variable_span(i: Span<'_>) -> ParseResult<'_, Variable> {
    <Variable as Parser>::parse_span(i)
}
pub fn t_variable_text(i: Span<'_>) -> ParseResult<'_, Variable> {
    <Variable as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_variable_str(i: Span<'_>) -> ParseResult<'_, Variable> {
    match (<Variable as Parser>::from_str(i.fragment()), parsers::parse_variable(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
pub fn s_con2_gd(i: &str) -> ParseResult<'_, Con2GD> {
    <Con2GD as Parser>::parse(i)
}
pub fn t_con2_gd_parse(i: Span<'_>) -> ParseResult<'_, Con2GD> {
    <Con2GD as Parser>::parse(i)
}
pub fn t_con2_gd_span(i: Span<'_>) -> ParseResult<'_, Con2GD> {
    <Con2GD as Parser>::parse_span(i)
}
pub fn t_con2_gd_text(i: Span<'_>) -> ParseResult<'_, Con2GD> {
    <Con2GD as Parser>::parse(*i.fragment())
}
/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_con2_gd_str(i: Span<'_>) -> ParseResult<'_, Con2GD> {
    match (<Con2GD as Parser>::from_str(i.fragment()), <Con2GD as Parser>::parse(i)) {
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }
}
