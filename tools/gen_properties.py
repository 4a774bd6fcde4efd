#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **(dict(observe_at=observe) if observe else {}), hook_needed=hook)))


T, A = 'src/types/', 'src/parsers/'

p('C01', 'Operator and keyword vocabularies are exact and round-trip',
  'Every value of a fixed vocabulary (assignment operators, binary and multi operators, comparisons, duration operators, intervals, time specifiers, optimization directions, requirement keys) has exactly one documented spelling, besides the legacy synonym "change" for "assign". '
  'Its parser accepts precisely the documented spellings and yields the matching value and remainder, converting the spelling from a string gives the same value and any other string is an error, and printing the value gives the spelling back. '
  'Conversions between two vocabularies keep the spelling.',
  ['inputs'], 'for every input text and every string', 'Tests parse a handful of spellings per vocabulary; they do not cover near misses, prefixes, or every value in every direction of the conversion.',
  [A + f for f in ('assign_op.rs', 'assign_op_t.rs', 'binary_comp.rs', 'binary_op.rs', 'multi_op.rs', 'd_op.rs', 'interval.rs', 'optimization.rs', 'time_specifier.rs', 'requirements.rs')] +
  [T + f for f in ('assign_op.rs', 'assign_op_t.rs', 'binary_comp.rs', 'binary_op.rs', 'multi_op.rs', 'd_op.rs', 'interval.rs', 'optimization.rs', 'time_specifier.rs', 'requirement.rs')],
  [('names modules: one constant per spelling, shared by parser, TryFrom and Display', 'src/types/*.rs')])

p('C02', 'Requirement implications follow the PDDL 3.1 definitions',
  'The expansion of a requirement is the one PDDL 3.1 defines for :adl, :quantified-preconditions and :fluents, and the requirement itself otherwise. A requirement contains itself, every requirement in its expansion, and every composite requirement all of whose parts are in its expansion, and no other. '
  'The effective requirements of a domain or problem are exactly the expansions of all declared requirements, and :strips when nothing is declared.',
  ['inputs'], 'for every pair of requirements and every set of declared requirements', 'Tests look at a few pairs; the relation has 21 x 21 entries and the effective set ranges over all declarations.',
  [T + 'requirement.rs', T + 'requirements.rs'], [('Requirement::contains / expand', T + 'requirement.rs'), ('Requirements::to_effective', T + 'requirements.rs')])

p('C03', 'Numbers are finite, parse exactly and are totally ordered',
  'A number parser accepts exactly unsigned decimals "digits[.digits]" whose value fits a finite 32-bit float and yields that nearest float; a value that is not finite is an error, never a panic or an infinite number. '
  'Equality, ordering and hashing of numbers are consistent with one another: the order is total, equal numbers compare equal and hash alike, negative zero equals zero, and the order agrees with the numeric order.',
  ['inputs'], 'for every text and every pair of 32-bit floats', 'Tests use a few literals; consistency of the order and hash has to hold for all pairs of floats including signed zeros and extremes.',
  [A + 'number.rs', T + 'number.rs'], [('Number::try_new, Ord, PartialEq, Hash', T + 'number.rs'), ('parse_number', A + 'number.rs')])

p('C04', 'Names are identified by their text alone',
  'A name has the text it was built from, whatever constructor was used (owned or borrowed string, static string, interned or not, well-known or not), and reading it back through any accessor gives that text. '
  'Two names, or a name and a string, are equal exactly when the texts are equal, and equal names hash alike.',
  ['inputs', 'histories'], 'for every text, every pair of constructors and every earlier history of the interning table', 'Tests compare a few names; the interning table makes the result depend on all names created before.',
  [T + 'name.rs', A + 'name.rs'], [('Name::new, map_to_static, new_string_interned', T + 'name.rs')])

p('C05', 'Typed lists give every item the type written for it',
  'In a typed list every item, in source order and none lost or duplicated, carries exactly the type written after the group it belongs to, and items with no written type get the default (object, or number for functions). '
  'A type is a single name or a non-empty "either" list of names in source order, and this holds wherever typed lists occur: types, constants, objects, parameters, quantified variables, predicate and function declarations.',
  ['inputs'], 'for every number of groups, group sizes, types and layout', 'Tests use lists of two or three groups; group boundaries, default types and names that look like keywords form an unbounded set.',
  [A + f for f in ('typed_list.rs', 'function_typed_list.rs', 'type.rs', 'types_def.rs', 'constants_def.rs', 'objects_def.rs', 'functions_def.rs', 'predicates_def.rs', 'atomic_formula_skeleton.rs', 'atomic_function_skeleton.rs', 'variable.rs', 'primitive_type.rs', 'function_type.rs')] +
  [T + f for f in ('typed.rs', 'typed_list.rs', 'function_typed.rs', 'function_typed_list.rs', 'type.rs', 'function_type.rs')],
  [('typed_list / function_typed_list', A + 'typed_list.rs')])

p('C06', 'Names, variables, terms, atoms and literals are read as written',
  'Names, variables, terms, function terms, atomic formulas, equalities, literals, function heads and initial-state elements accept exactly the texts of the documented grammar and yield the symbol, the arguments in order and the polarity that were written. '
  'Nothing is dropped, reordered or reinterpreted, and the unread remainder starts right after the construct.',
  ['inputs'], 'for every input text', 'Tests parse one or two examples of each form.',
  [A + f for f in ('name.rs', 'variable.rs', 'term.rs', 'function_term.rs', 'atomic_formula.rs', 'literal.rs', 'f_head.rs', 'basic_function_term.rs', 'init_el.rs', 'init_def.rs', 'timeless_def.rs', 'predicate.rs', 'function_symbol.rs', 'action_symbol.rs', 'da_symbol.rs', 'pref_name.rs')],
  [('parse_term, atomic_formula, literal, parse_init_el', 'src/parsers/')])

p('C07', 'Goals and preconditions are read as written',
  'Goal descriptions, preconditions and preferences accept exactly the documented grammar (and, or, not, imply, exists, forall, preference, comparisons, atoms) and yield a tree with the same connectives, quantified variables, preference names and operands in source order, at every nesting depth. '
  'An empty conjunction stays empty, a top-level conjunction is the list of its parts, and the goal section and derived predicates carry exactly the goal written.',
  ['inputs'], 'for every goal text at every nesting depth', 'Tests parse a few goals of depth two; nested combinations and operand order are unbounded.',
  [A + f for f in ('gd.rs', 'pre_gd.rs', 'pref_gd.rs', 'f_comp.rs', 'goal_def.rs', 'derived_predicate.rs')] + [T + f for f in ('gd.rs', 'pre_gd.rs', 'pref_gd.rs', 'preference.rs', 'goal_def.rs')],
  [('parse_gd, parse_pre_gd, parse_pref_gd', 'src/parsers/')])

p('C08', 'Effects are read as written',
  'Effects of actions (conjunctions, forall, when, positive and negative atoms, numeric and object fluent assignments) accept exactly the documented grammar and yield the same operator, condition, quantified variables and effects in source order, at every nesting depth. '
  'Assigning "undefined" is the absence of a value and never a constant of that name.',
  ['inputs'], 'for every effect text', 'Tests parse a few effects; nesting and operand order are unbounded.',
  [A + f for f in ('effects.rs', 'c_effect.rs', 'cond_effect.rs', 'p_effect.rs')] + [T + f for f in ('effects.rs', 'c_effect.rs', 'conditional_effect.rs', 'p_effect.rs')],
  [('parse_effect, parse_c_effect, parse_p_effect', 'src/parsers/')])

p('C09', 'Numeric expressions keep operator, operands and order',
  'Fluent expressions, durative and continuous expressions and plan metrics accept exactly the documented grammar and yield the operator and the operands in source order at every nesting depth. '
  'Numbers, negations, multi-operand sums and products, total-time, is-violated, ?duration and #t each denote their own form, never a function call of that name.',
  ['inputs'], 'for every expression text', 'Tests parse a few shallow expressions.',
  [A + f for f in ('f_exp.rs', 'f_exp_da.rs', 'f_exp_t.rs', 'f_head.rs', 'f_comp.rs', 'f_assign_da.rs', 'metric_f_exp.rs', 'metric_spec.rs')] + [T + f for f in ('f_exp.rs', 'f_exp_da.rs', 'f_exp_t.rs', 'metric_f_exp.rs', 'metric_spec.rs')],
  [('parse_f_exp, parse_f_exp_da, parse_metric_f_exp', 'src/parsers/')])

p('C10', 'Trajectory constraints keep modality, bounds and nesting',
  'State-trajectory constraints of domains and problems (at end, always, sometime, within, at-most-once, sometime-after, sometime-before, always-within, hold-during, hold-after, and, forall, preference) accept exactly the documented grammar and yield the same modality, time bounds and operands in source order. '
  'A modality nested in another is read as that modality, never as an atom.',
  ['inputs'], 'for every constraint text', 'Tests parse one example of each modality with a plain goal inside.',
  [A + f for f in ('con_gd.rs', 'pref_con_gd.rs', 'domain_constraints_def.rs', 'problem_constraints_def.rs')] + [T + f for f in ('con_gd.rs', 'pref_con_gd.rs')],
  [('parse_con_gd, parse_con2_gd, parse_pref_con_gd', 'src/parsers/')])

p('C11', 'Durative actions keep durations, time points and intervals',
  'Durative action definitions accept exactly the documented grammar and yield the written symbol, parameters, duration constraints, conditions and effects, with every time point (start, end), interval (over all), comparison and assignment operator as written and in source order. '
  'Empty durations, conditions and effects are absent rather than invented.',
  ['inputs'], 'for every durative action text', 'Tests parse one or two durative actions.',
  [A + f for f in ('da_def.rs', 'da_gd.rs', 'da_effect.rs', 'timed_gd.rs', 'timed_effect.rs', 'pref_timed_gd.rs', 'duration_constraint.rs', 'simple_duration_constraint.rs', 'd_value.rs', 'f_assign_da.rs')] + [T + f for f in ('da_def.rs', 'da_gd.rs', 'da_effect.rs', 'timed_gd.rs', 'timed_effect.rs')],
  [('parse_da_def and the parsers it uses', 'src/parsers/')])

p('C12', 'A domain is the faithful reading of its text',
  'A domain text is accepted exactly when it follows the documented grammar, and each section (name, extends, requirements, types, constants, predicates, functions, constraints and the actions, durative actions and derived predicates) is available from the domain exactly as written, complete and in source order. '
  'Sections that are absent are empty, and no section ends up in the place of another.',
  ['inputs'], 'for every domain text', 'Tests parse a few domains; any subset of sections with any content must be mapped to the right place.',
  [A + 'domain.rs', A + 'action_def.rs', A + 'structure_def.rs', T + 'domain.rs', T + 'action_definition.rs'],
  [('parse_domain, Domain::with_*', 'src/parsers/domain.rs')])

p('C13', 'A problem is the faithful reading of its text',
  'A problem text is accepted exactly when it follows the documented grammar, and each section (name, domain, requirements, objects, initial state, goal, constraints, metric and length) is available from the problem exactly as written, complete and in source order. '
  'Sections that are absent are empty or missing, and no section ends up in the place of another.',
  ['inputs'], 'for every problem text', 'Tests parse a few problems.',
  [A + 'problem.rs', A + 'init_def.rs', A + 'init_el.rs', A + 'length_spec.rs', A + 'metric_spec.rs', T + 'problem.rs'],
  [('parse_problem, Problem::with_*', 'src/parsers/problem.rs')])

p('C14', 'Layout carries no meaning',
  'White space is blank, tab, carriage return and line feed: replacing a run of white space by any other (non-empty) run changes neither what a parser accepts nor the value read. '
  'A comment runs from its semicolon to the end of the line: neither its content, nor the number of further comment lines and the white space that follow it, changes what a parser accepts or the value read.',
  ['inputs'], 'for every text and every way of laying it out', 'Tests use a handful of layouts; every white space and every comment at every place where layout may stand must be transparent.',
  ['src/parsers/comments.rs', 'src/parsers/utilities.rs', 'src/parsers/'], [('ignore_eol_comment, ws, parens, prefix_expr, space_separated_list', 'src/parsers/utilities.rs'), ('every parse_* function', 'src/parsers/')])

p('C15', 'Parsing is total: no panics, termination, and a true remainder',
  'No parser panics or fails to terminate on any text: each call returns a value or an error. '
  'On success the remainder is a proper suffix of the input (the comment skipper may consume nothing), so a construct is never read twice or skipped.',
  ['inputs'], 'for every UTF-8 text and every parser', 'Tests run on a few well-formed inputs; panics, endless loops and wrong remainders show on inputs nobody wrote down.',
  ['src/parsers/'], [('every parse_* function', 'src/parsers/')])

p('C16', 'Keywords are recognised as whole words only',
  'A keyword is recognised only as a whole word: a longer name that begins with a keyword is read as that name where a name may stand and is rejected where only the keyword may stand. '
  'A name that equals a keyword remains usable wherever the grammar expects a name.',
  ['inputs'], 'for every keyword, every continuation and every position', 'Tests do not try names that extend keywords.',
  ['src/parsers/utilities.rs', A + 'type.rs', A + 'metric_f_exp.rs', A + 'con_gd.rs', A + 'gd.rs'], [('prefix_expr and the keyword matchers', A + 'utilities.rs')])

p('C17', 'Values built through the API have exactly the parts given',
  'Every public constructor, builder method and conversion of the domain model yields the value whose parts are exactly its arguments, each in its place and in order, and leaves all other parts at their documented defaults. '
  'Every accessor returns exactly that part, without changing or losing anything. '
  'Conversions into an enumeration pick the alternative named after the converted type, and conversions back yield the original value.',
  ['inputs'], 'for all arguments, and lists of any length', 'Tests compare parsed values against values built with the same constructors, so a constructor that swaps or drops a part can cancel out; many constructors and builders are not tested at all.',
  [T], [('new, with_*, From, accessors, Deref', T)])

p('C18', 'Every entry point reads the same language',
  'For every type that implements the Parser trait, its methods parse (on plain text and on spans), parse_span and from_str accept and reject exactly the texts that the parse function of that type accepts and rejects, with the same value, the same remainder where one is returned, and the same kind of error. '
  'The helpers for parse results give exactly the parsed value, and compare with exactly that value.',
  ['inputs'], 'for every text and every type with a parser', 'Tests use one entry point per construct, on one or two texts.',
  ['src/parsers/'], [('trait Parser and its implementations; UnwrapValue', 'src/parsers/mod.rs')])

p('C19', 'Collections agree with their elements',
  'Every collection type (lists of effects, goals, definitions, typed lists, requirement sets and the like) has the length of its elements and is empty exactly if there are none. '
  'Iterating yields every element exactly once in order, borrowed and owned alike, and comparing it with a slice, vector or single element holds exactly if the elements are equal. '
  'Building it from a vector, an iterator or a single element keeps the elements and their order, and extracting the single element succeeds exactly if there is one.',
  ['inputs'], 'for collections of any size', 'Tests use collections of one to three elements.',
  [T], [('len, is_empty, iter, into_iter, FromIterator, PartialEq, try_get_single', T)])

p('C20', 'Equality, cloning, hashing and ordering go by the whole value',
  'Two values of a domain model type are equal exactly if they are the same alternative with equal parts throughout, so no difference in any part, however deep, is ignored and no equal values are told apart. '
  'A clone equals its original in every part, and equal values have equal hashes. '
  'Types that can be borrowed as text hash and compare in the same way as that text.',
  ['inputs'], 'for all pairs of values', 'Tests compare a few values that are meant to be equal; an equality that ignores a part makes every such test pass.',
  [T], [('derived and hand-written Clone, PartialEq, Hash, Ord', T)])

if __name__ == '__main__':
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(d + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
