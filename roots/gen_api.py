#!/usr/bin/env python3
"""Generates roots/src/eqs.rs: the equations that state the contracts of the types' own functions (constructors,
accessors, conversions, vocabulary tables, sets of requirements, numbers, names).

An equation  NAME(args) { code } = { specified }  is proved for all arguments by symbolic execution of both sides and
tested natively with random arguments when a proof fails."""
import os
import re

V = os.path.dirname(os.path.abspath(__file__))
EQS = []


def eq(name, args, left, right):
    EQS.append((name, args, left, right))


# ------------------------------------------------------------------------------ C01 vocabularies
VOCAB = {
    'AssignOp': 'Assign=assign Assign=change ScaleUp=scale-up ScaleDown=scale-down Increase=increase Decrease=decrease',
    'AssignOpT': 'Increase=increase Decrease=decrease',
    'BinaryComp': 'GreaterThan=> LessThan=< Equal== GreaterOrEqual=>= LessThanOrEqual=<=',
    'BinaryOp': 'Multiplication=* Addition=+ Subtraction=- Division=/',
    'MultiOp': 'Multiplication=* Addition=+',
    'DOp': 'Equal== GreaterOrEqual=>= LessThanOrEqual=<=',
    'Interval': 'All=all',
    'Optimization': 'Minimize=minimize Maximize=maximize',
    'TimeSpecifier': 'Start=start End=end',
    'Requirement': 'Strips=:strips Typing=:typing NegativePreconditions=:negative-preconditions '
                   'DisjunctivePreconditions=:disjunctive-preconditions Equality=:equality '
                   'ExistentialPreconditions=:existential-preconditions '
                   'UniversalPreconditions=:universal-preconditions '
                   'QuantifiedPreconditions=:quantified-preconditions ConditionalEffects=:conditional-effects '
                   'Fluents=:fluents NumericFluents=:numeric-fluents ObjectFluents=:object-fluents Adl=:adl '
                   'DurativeActions=:durative-actions DurationInequalities=:duration-inequalities '
                   'ContinuousEffects=:continuous-effects DerivedPredicates=:derived-predicates '
                   'TimedInitialLiterals=:timed-initial-literals Preferences=:preferences Constraints=:constraints '
                   'ActionCosts=:action-costs',
}
TAB = {t: [tuple(w.split('=', 1)) for w in v.split()] for t, v in VOCAB.items()}
CANON = {t: {n: w for n, w in reversed([x for x in TAB[t]])} for t in TAB}
CANON['AssignOp']['Assign'] = 'assign'


def spelled(t, v, wrap='text({})'):
    return 'match %s { %s }' % (v, ' '.join(f'{t}::{n} => {wrap.format(chr(34) + w + chr(34))},' for n, w in CANON[t].items()))


for t in VOCAB:
    k = 'c01_' + t.lower()
    arms = ' '.join(f'"{w}" => node("ok", [node("{t}.{n}", [])]),' for n, w in TAB[t])
    eq(k + '_from_text', 's: &\'static str', f'{t}::try_from(s).d()', 'match s { %s _ => node("err", []) }' % arms)
    eq(k + '_shown', f'x: {t}', 'text(&x.to_string())', spelled(t, 'x'))
    eq(k + '_round_trip', f'x: {t}', f'{t}::try_from(x.to_string().as_str()).d()', 'node("ok", [x.d()])')
    eq(k + '_eq', f'x: {t}, y: {t}', 'b(x == y)', 'b(same(&x.d(), &y.d()))')
for t in ('AssignOp', 'Requirement'):
    k = 'c01_' + t.lower()
    sp = spelled(t, 'x', '{}')
    eq(k + '_as_str', f'x: {t}', 'text(x.as_str())', spelled(t, 'x'))
    eq(k + '_as_ref', f'x: {t}', 'text(AsRef::<str>::as_ref(&x))', spelled(t, 'x'))
    eq(k + '_borrow', f'x: {t}', 'text(Borrow::<str>::borrow(&x))', spelled(t, 'x'))
    eq(k + '_eq_str', f'x: {t}, s: &\'static str', 'b(x == s)', f'b({sp} == s)')
    eq(k + '_eq_string', f'x: {t}, s: String', 'b(x == s)', f'b({sp} == s.as_str())')
    eq(k + '_eq_ref', f'x: {t}, y: {t}', 'b(x == &y)', 'b(x == y)')
    eq(k + '_ref_eq', f'x: {t}, y: {t}', 'b(&x == y)', 'b(x == y)')
eq('c01_multi_to_binary', 'x: MultiOp', 'BinaryOp::from(x).d()',
   'match x { MultiOp::Multiplication => node("BinaryOp.Multiplication", []), MultiOp::Addition => node("BinaryOp.Addition", []) }')
eq('c01_binary_to_multi', 'x: BinaryOp', 'MultiOp::try_from(x).d()',
   'match x { BinaryOp::Multiplication => node("ok", [node("MultiOp.Multiplication", [])]), '
   'BinaryOp::Addition => node("ok", [node("MultiOp.Addition", [])]), _ => node("err", []) }')

# ------------------------------------------------------------------------------ C02 requirements
EXPAND = {
    'QuantifiedPreconditions': 'ExistentialPreconditions UniversalPreconditions',
    'Fluents': 'NumericFluents ObjectFluents',
    'Adl': 'Strips Typing NegativePreconditions DisjunctivePreconditions Equality ExistentialPreconditions '
           'UniversalPreconditions ConditionalEffects',
}
exp_arms = ' '.join('Requirement::%s => matches!(y, %s),' % (a, ' | '.join('Requirement::' + x for x in bs.split()))
                    for a, bs in EXPAND.items())
HELP = '''
/// the documented expansion of a requirement, as a relation
pub fn expands(x: &Requirement, y: &Requirement) -> bool {
    match x { %s r => same(&r.d(), &y.d()) }
}
/// x includes y: they are the same, or all that y stands for is among what x stands for
pub fn includes(x: &Requirement, y: &Requirement) -> bool {
    same(&x.d(), &y.d()) || match y {
        Requirement::QuantifiedPreconditions => expands(x, &Requirement::ExistentialPreconditions) && expands(x, &Requirement::UniversalPreconditions),
        Requirement::Fluents => expands(x, &Requirement::NumericFluents) && expands(x, &Requirement::ObjectFluents),
        Requirement::Adl => false,
        r => expands(x, r),
    }
}
''' % exp_arms
eq('c02_expand', 'x: Requirement, y: Requirement', 'b(x.expand().contains(&y))', 'b(expands(&x, &y))')
eq('c02_expand_once', 'x: Requirement', 'int(x.expand().len() as u64)',
   'match x { %s _ => int(1) }' % ' '.join(f'Requirement::{a} => int({len(bs.split())}),' for a, bs in EXPAND.items()))
KNOWN_PAIR = 'matches!((&x, &y), (Requirement::Adl, Requirement::ContinuousEffects))'      # a known finding of its own
eq('c02_contains', 'x: Requirement, y: Requirement', f'b(!{KNOWN_PAIR} && x.contains(&y))', f'b(!{KNOWN_PAIR} && includes(&x, &y))')
eq('c02_contains_continuous', '', 'b(Requirement::Adl.contains(&Requirement::ContinuousEffects))',
   'b(includes(&Requirement::Adl, &Requirement::ContinuousEffects))')
eq('c02_contains_owned', 'x: Requirement, y: Requirement', 'b(x.contains(y))', 'b(x.contains(&y))')
eq('c02_effective', 'rs: Requirements, y: Requirement', 'b(rs.to_effective().contains(&y))',
   'if rs.is_empty() { b(same(&y.d(), &Requirement::Strips.d())) } else { b(rs.iter().any(|x| expands(x, &y))) }')


def emit():
    o = ['//! Generated by gen_api.py.\nuse crate::dump::*;\nuse pddl::*;\n', HELP, '\n#[macro_export]\nmacro_rules! with_equations {\n    ($m:ident) => {\n        $m! {\n']
    for n, a, l, r in EQS:
        o.append(f'{n} ({a}) {{ {l} }} {{ {r} }}\n')
    o.append('        }\n    };\n}\n')
    open(os.path.join(V, 'src', 'eqs.rs'), 'w').write(''.join(o))


exec(open(os.path.join(V, 'gen_api2.py')).read()) if os.path.exists(os.path.join(V, 'gen_api2.py')) else None
exec(open(os.path.join(V, 'gen_api3.py')).read())
exec(open(os.path.join(V, "gen_api4.py")).read())
emit()
print(len(EQS), 'equations')
