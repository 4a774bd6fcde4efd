"""The specification: for every public parser function, the texts it accepts and the value it builds.

Ordered choice, written from the documented PDDL 3.1 grammar with the crate's documented layout rules:
white space and end-of-line comments (';' up to the end of the line, with the white space after it) are
skipped wherever W(...) appears."""
from theory import *
from spec import *
import z3

WS0 = Drop(Run(NAMED['ws'], 0, ' \n\t'))
WS1 = Drop(Run(NAMED['ws'], 1, ' \n\t'))
EOL = Call('ignore_eol_comment')


class NotAhead(Expr):
    """the next character (if any) is not of the class"""

    nullable = True
    unvalued = True

    def __init__(self, rs):
        self.rs = rs

    def sym(self, cx, s):
        return Res(NOT(in_class(hd(s), self.rs)), False, s, None)

    def run(self, cx, t, i):
        if i < len(t) and any(a <= ord(t[i]) <= b for a, b in self.rs):
            return ('err',)
        return ('ok', i, None)

    def gen(self, g, d):
        return ''


class OptElse(Expr):
    """optional part with a default value"""

    nullable = True

    def __init__(self, e, default):
        self.e, self.default = e, default

    def sym(self, cx, s):
        r = self.e.sym(cx, s)
        return Res(NOT(r.fail), r.fail, IF(r.ok, r.rest, s), ite([(r.ok, r.tree), (NOT(r.ok), self.default)]))

    def run(self, cx, t, i):
        r = self.e.run(cx, t, i)
        return ('ok', i, self.default) if r[0] == 'err' else r

    def gen(self, g, d):
        return self.e.gen(g, d - 1) if g.r.random() < (.6 if d > 0 else .15) else ''


NONE = ('n', 'none', ())
EMPTY = ('list', ())


def KW(w):
    return Seq(Lit(w), NotAhead(NAMED['name'])) if w[-1].isalnum() else Lit(w)


def W(e):
    return Seq(WS0, EOL, e)


def PRE(w, *inner):
    """( w inner )"""
    return Seq(W(Lit('(')), KW(w), W(Seq(*inner)), W(Lit(')')))


def PAR(*inner):
    return Seq(EOL, Lit('('), W(Seq(*inner)), W(Lit(')')))


def LIST(e, minimum=0):
    return W(Rep(Seq(EOL, e), WS1, minimum))


def LIST1(e):
    return LIST(e, 1)


def SP(e):
    return Seq(WS1, e)


def N(label, *es):
    return Node(label, Seq(*es))


def ONE(e):
    return Map(e, lambda t: ('list', (t,)))


def K(w, label):
    return Const(Lit(w), ('n', label, ()))


def table(ty, **kv):
    return Alt(*[K(w, f'{ty}.{n}') for n, w in kv.items()])


def EMPTY_OR(e, empty, wrap):
    return Alt(Const(Seq(Lit('('), WS0, Lit(')')), empty), wrap(e))


SOME = lambda e: N('some', e)
ID = lambda e: e


def typed_list(elem, label, default):
    o = elem
    explicit = Map(Seq(LIST1(o), W(Lit('-')), Call('type')),
                   lambda t: list_map(t[1][0], lambda x: ('n', label, (x, t[1][1]))))
    implicit = Map(LIST(o), lambda t: list_map(t, lambda x: ('n', label, (x, default))))
    return Map(Seq(Map(Rep(explicit), list_flat), implicit), lambda t: list_cat(*t[1]))


OBJECT = ('n', 'Type.Exactly', (('lit', 'object'),))
NUMBER = ('n', 'Type.Exactly', (('lit', 'number'),))
VARS = PAR(typed_list(Call('variable'), 'Typed', OBJECT))
TYPED_NAMES = typed_list(Call('name'), 'Typed', OBJECT)


def AF(e):
    return Alt(
        N('AtomicFormula.Equality', N('EqualityAtomicFormula', W(Lit('(=')), W(e), W(e), W(Lit(')')))),
        N('AtomicFormula.Predicate', N('PredicateAtomicFormula', PAR(Call('predicate'), W(LIST(e))))))


def LITERAL(e):
    return Alt(N('Literal.NotAtomicFormula', PRE('not', AF(e))), N('Literal.AtomicFormula', AF(e)))


CON2 = Alt(N('Con2GD.Nested', Call('con_gd')), N('Con2GD.Goal', Call('gd')))


def OP3(op, a, b):
    return PAR(op, SP(a), SP(b))


def u64_ok(s, r):
    import models
    return models.num_ok(s, r)


def finite(s, r):
    import models
    return models.num_finite(s, r)


def f32_finite(t):
    from fractions import Fraction
    # largest finite f32 plus half an ulp rounds to infinity (ties to even)
    return Fraction(t) < Fraction(2) ** 128 - Fraction(2) ** 103


def arith(ty, me, plus=None):
    """the five arithmetic forms shared by the expression languages"""
    return [N(f'{ty}.BinaryOp', OP3(Call('binary_op'), me, me)),
            N(f'{ty}.MultiOp', PAR(Call('multi_op'), SP(me), SP(LIST1(me)))),
            N(f'{ty}.Negative', PAR(Lit('-'), WS0, me))]


def VAR_IN(label, w, e):
    return N(label, PRE(w, VARS, SP(e)))


REQ = dict(Strips=':strips', Typing=':typing', NegativePreconditions=':negative-preconditions',
           DisjunctivePreconditions=':disjunctive-preconditions', Equality=':equality',
           ExistentialPreconditions=':existential-preconditions', UniversalPreconditions=':universal-preconditions',
           QuantifiedPreconditions=':quantified-preconditions', ConditionalEffects=':conditional-effects',
           Fluents=':fluents', NumericFluents=':numeric-fluents', ObjectFluents=':object-fluents', Adl=':adl',
           DurativeActions=':durative-actions', DurationInequalities=':duration-inequalities',
           ContinuousEffects=':continuous-effects', DerivedPredicates=':derived-predicates',
           TimedInitialLiterals=':timed-initial-literals', Preferences=':preferences', Constraints=':constraints',
           ActionCosts=':action-costs')

G = {}

G['ignore_eol_comment'] = AtMost1(Seq(Lit(';'), AtMost1(Drop(Run(NOTEOL, 1, 'c (x'))), WS0, EOL))
G['name'] = W(Text(Seq(Run(NAMED['alpha'], 1, 'ab'), Run(NAMED['name'], 0, 'ab-_1'))))
G['number'] = When(Text(Seq(Run(NAMED['digit'], 1, '0123'), AtMost1(Seq(Lit('.'), Run(NAMED['digit'], 1, '0519')))), 'num'),
                   finite, lambda m, r: f32_finite(m))
for _n in ('action_symbol', 'da_symbol', 'function_symbol', 'predicate', 'pref_name', 'primitive_type'):
    G[_n] = Call('name')
G['function_type'] = Call('type')
G['variable'] = Seq(Lit('?'), Call('name'))
G['type'] = Cut(Alt(N('Type.Exactly', Call('primitive_type')),
                    N('Type.EitherOf', PRE('either', LIST1(Call('primitive_type'))))))

G['assign_op'] = Alt(K('change', 'AssignOp.Assign'), table('AssignOp', Assign='assign', ScaleUp='scale-up',
                     ScaleDown='scale-down', Increase='increase', Decrease='decrease'))
G['assign_op_t'] = table('AssignOpT', Increase='increase', Decrease='decrease')
G['binary_comp'] = table('BinaryComp', GreaterOrEqual='>=', LessThanOrEqual='<=', Equal='=', GreaterThan='>', LessThan='<')
G['binary_op'] = table('BinaryOp', Multiplication='*', Addition='+', Subtraction='-', Division='/')
G['multi_op'] = table('MultiOp', Multiplication='*', Addition='+')
G['d_op'] = table('DOp', LessThanOrEqual='<=', GreaterOrEqual='>=', Equal='=')
G['interval'] = table('Interval', All='all')
G['optimization'] = table('Optimization', Minimize='minimize', Maximize='maximize')
G['time_specifier'] = table('TimeSpecifier', Start='start', End='end')
G['require_key'] = table('Requirement', **REQ)
G['require_def'] = PRE(':requirements', LIST1(Call('require_key')))

TERM = Call('term')
G['function_term'] = N('FunctionTerm', Lit('('), Call('function_symbol'), LIST(TERM), W(Lit(')')))
G['term'] = Alt(N('Term.Variable', Call('variable')), N('Term.Name', Call('name')), N('Term.Function', Call('function_term')))
G['atomic_formula_skeleton'] = N('AtomicFormulaSkeleton', PAR(Call('predicate'), W(typed_list(Call('variable'), 'Typed', OBJECT))))
G['atomic_function_skeleton'] = N('AtomicFunctionSkeleton', PAR(Call('function_symbol'), W(typed_list(Call('variable'), 'Typed', OBJECT))))
G['basic_function_term'] = Alt(
    Map(Call('function_symbol'), lambda t: ('n', 'BasicFunctionTerm', (t, EMPTY))),
    N('BasicFunctionTerm', PAR(Call('function_symbol'), W(LIST(Call('name'))))))
G['f_head'] = Alt(N('FHead.Simple', Call('function_symbol')), N('FHead.Simple', PAR(Call('function_symbol'))),
                  N('FHead.WithTerms', PAR(Call('function_symbol'), SP(LIST(TERM)))))

G['gd'] = Alt(
    N('GoalDefinition.And', PRE('and', LIST(Call('gd')))),
    N('GoalDefinition.Or', PRE('or', LIST(Call('gd')))),
    N('GoalDefinition.Not', PRE('not', Call('gd'))),
    N('GoalDefinition.Imply', PRE('imply', Call('gd'), SP(Call('gd')))),
    VAR_IN('GoalDefinition.Exists', 'exists', Call('gd')),
    VAR_IN('GoalDefinition.ForAll', 'forall', Call('gd')),
    N('GoalDefinition.AtomicFormula', AF(TERM)),
    N('GoalDefinition.Literal', LITERAL(TERM)),
    N('GoalDefinition.FComp', Call('f_comp')))
G['pref_gd'] = Alt(
    N('PreferenceGD.Preference', N('Preference', PRE('preference', Opt(Call('pref_name')), SP(Call('gd'))))),
    N('PreferenceGD.Preference', Map(PRE('preference', Call('gd')), lambda t: ('n', 'Preference', (NONE, t)))),
    N('PreferenceGD.Goal', Call('gd')))
G['pre_gd'] = Alt(
    ONE(VAR_IN('PreconditionGoalDefinition.Forall', 'forall', Call('pre_gd'))),
    Map(PRE('and', LIST(Call('pre_gd'))), list_flat),
    ONE(N('PreconditionGoalDefinition.Preference', Call('pref_gd'))))

G['f_comp'] = N('FComp', OP3(Call('binary_comp'), Call('f_exp'), Call('f_exp')))
_f = arith('FExp', Call('f_exp'))
G['f_exp'] = Alt(N('FExp.Number', Call('number')), *_f, N('FExp.Function', Call('f_head')))
G['f_exp_da'] = Alt(K('?duration', 'FExpDa.Duration'), *arith('FExpDa', Call('f_exp_da')), N('FExpDa.FExp', Call('f_exp')))
G['f_exp_t'] = Alt(
    N('FExpT.Scaled', PRE('*', Alt(Seq(Lit('#t'), SP(Call('f_exp'))), Seq(Call('f_exp'), SP(Lit('#t')))))),
    K('#t', 'FExpT.Now'))
G['f_assign_da'] = N('FAssignDa', PAR(Call('assign_op'), SP(Call('f_head')), SP(Call('f_exp_da'))))
G['metric_f_exp'] = Alt(
    N('MetricFExp.Number', Call('number')), *arith('MetricFExp', Call('metric_f_exp')),
    Const(KW('total-time'), ('n', 'MetricFExp.TotalTime', ())),
    N('MetricFExp.IsViolated', PRE('is-violated', Call('pref_name'))),
    N('MetricFExp.Function', PAR(Call('function_symbol'), W(LIST(Call('name'))))),
    Map(Call('function_symbol'), lambda t: ('n', 'MetricFExp.Function', (t, EMPTY))))
G['problem_metric_spec'] = N('MetricSpec', PRE(':metric', Call('optimization'), SP(Call('metric_f_exp'))))

G['p_effect'] = Alt(
    N('PEffect.NotAtomicFormula', PRE('not', AF(TERM))),
    Map(PRE('assign', Call('function_term'), SP(Lit('undefined'))), lambda t: ('n', 'PEffect.AssignObjectFluent', (t, NONE))),
    N('PEffect.AssignObjectFluent', PRE('assign', Call('function_term'), SP(SOME(TERM)))),
    N('PEffect.AssignNumericFluent', PAR(Call('assign_op'), SP(Call('f_head')), SP(Call('f_exp')))),
    N('PEffect.AtomicFormula', AF(TERM)))
G['cond_effect'] = Alt(N('ConditionalEffect.All', PRE('and', LIST(Call('p_effect')))),
                       N('ConditionalEffect.Single', Call('p_effect')))
G['forall_c_effect'] = VAR_IN('ForallCEffect', 'forall', Call('effect'))
G['when_c_effect'] = N('WhenCEffect', PRE('when', Call('gd'), SP(Call('cond_effect'))))
G['c_effect'] = Alt(N('CEffect.Forall', Call('forall_c_effect')), N('CEffect.When', Call('when_c_effect')),
                    N('CEffect.Effect', Call('p_effect')))
G['effect'] = Alt(PRE('and', LIST(Call('c_effect'))), ONE(Call('c_effect')))

G['con2_gd'] = CON2
G['con_gd'] = Alt(
    N('ConGD.And', PRE('and', LIST(Call('con_gd')))),
    VAR_IN('ConGD.Forall', 'forall', Call('con_gd')),
    N('ConGD.AtEnd', PRE('at', KW('end'), W(Call('gd')))),
    N('ConGD.Always', PRE('always', CON2)),
    N('ConGD.Sometime', PRE('sometime', CON2)),
    N('ConGD.Within', PRE('within', Call('number'), SP(CON2))),
    N('ConGD.AtMostOnce', PRE('at-most-once', CON2)),
    N('ConGD.SometimeAfter', PRE('sometime-after', CON2, SP(CON2))),
    N('ConGD.SometimeBefore', PRE('sometime-before', CON2, SP(CON2))),
    N('ConGD.AlwaysWithin', PRE('always-within', Call('number'), SP(CON2), SP(CON2))),
    N('ConGD.HoldDuring', PRE('hold-during', Call('number'), SP(Call('number')), SP(CON2))),
    N('ConGD.HoldAfter', PRE('hold-after', Call('number'), SP(CON2))))
G['pref_con_gd'] = Alt(
    Map(PRE('and', LIST(Call('pref_con_gd'))), list_flat),
    ONE(VAR_IN('PrefConGD.Forall', 'forall', Call('pref_con_gd'))),
    ONE(N('PrefConGD.Preference', PRE('preference', SOME(Call('pref_name')), SP(Call('con_gd'))))),
    ONE(Map(PRE('preference', Call('con_gd')), lambda t: ('n', 'PrefConGD.Preference', (NONE, t)))),
    ONE(N('PrefConGD.Goal', Call('con_gd'))))

G['d_value'] = Alt(N('DurationValue.Number', Call('number')), N('DurationValue.FExp', Call('f_exp')))
G['simple_duration_constraint'] = Alt(
    N('SimpleDurationConstraint.Op', PAR(Call('d_op'), SP(Lit('?duration')), SP(Call('d_value')))),
    N('SimpleDurationConstraint.At', PRE('at', Call('time_specifier'), SP(Call('simple_duration_constraint')))))
G['duration_constraint'] = EMPTY_OR(Alt(
    N('DurationConstraint.Single', Call('simple_duration_constraint')),
    N('DurationConstraint.All', PRE('and', LIST1(Call('simple_duration_constraint'))))), NONE, SOME)
G['timed_gd'] = Alt(N('TimedGD.At', PRE('at', Call('time_specifier'), SP(Call('gd')))),
                    N('TimedGD.Over', PRE('over', Call('interval'), SP(Call('gd')))))
G['pref_timed_gd'] = Alt(
    N('PrefTimedGD.Preference', PRE('preference', Opt(Seq(Call('pref_name'), WS1)), Call('timed_gd'))),
    N('PrefTimedGD.Required', Call('timed_gd')))
G['da_gd'] = Alt(
    VAR_IN('DurativeActionGoalDefinition.Forall', 'forall', Call('da_gd')),
    N('DurativeActionGoalDefinition.And', PRE('and', LIST(Call('da_gd')))),
    N('DurativeActionGoalDefinition.Timed', Call('pref_timed_gd')))
G['timed_effect'] = Alt(
    N('TimedEffect.NumericFluent', PRE('at', Call('time_specifier'), SP(Call('f_assign_da')))),
    N('TimedEffect.Conditional', PRE('at', Call('time_specifier'), SP(Call('cond_effect')))),
    N('TimedEffect.ContinuousEffect', PAR(Call('assign_op_t'), SP(Call('f_head')), SP(Call('f_exp_t')))))
G['da_effect'] = Alt(
    N('DurativeActionEffect.All', PRE('and', LIST(Call('da_effect')))),
    VAR_IN('DurativeActionEffect.Forall', 'forall', Call('da_effect')),
    N('DurativeActionEffect.When', PRE('when', Call('da_gd'), SP(Call('timed_effect')))),
    N('DurativeActionEffect.Timed', Call('timed_effect')))

PARAMETERS = Seq(Lit(':parameters'), SP(VARS))
G['action_def'] = N('ActionDefinition', PRE(
    ':action', Call('action_symbol'), SP(W(PARAMETERS)),
    W(Seq(OptElse(W(Seq(Lit(':precondition'), SP(EMPTY_OR(Call('pre_gd'), EMPTY, ID)))), EMPTY),
          OptElse(W(Seq(Lit(':effect'), SP(EMPTY_OR(Call('effect'), NONE, SOME)))), NONE)))))
G['da_def'] = N('DurativeActionDefinition', PRE(
    ':durative-action', Call('da_symbol'), SP(W(PARAMETERS)),
    SP(W(Seq(Lit(':duration'), SP(Call('duration_constraint'))))),
    SP(W(Seq(Lit(':condition'), SP(EMPTY_OR(Call('da_gd'), NONE, SOME))))),
    SP(W(Seq(Lit(':effect'), SP(EMPTY_OR(Call('da_effect'), NONE, SOME)))))))
G['derived_predicate'] = N('DerivedPredicate', PRE(':derived', Call('atomic_formula_skeleton'), SP(Call('gd'))))
G['structure_def'] = Alt(N('StructureDef.Derived', Call('derived_predicate')), N('StructureDef.Action', Call('action_def')),
                         N('StructureDef.DurativeAction', Call('da_def')))
G['types_def'] = PRE(':types', TYPED_NAMES)
G['constants_def'] = PRE(':constants', TYPED_NAMES)
G['problem_objects_declaration'] = PRE(':objects', TYPED_NAMES)
G['predicates_def'] = PRE(':predicates', LIST1(Call('atomic_formula_skeleton')))
G['functions_def'] = PRE(':functions', typed_list(Call('atomic_function_skeleton'), 'FunctionTyped', NUMBER))
G['domain_constraints_def'] = PRE(':constraints', Call('con_gd'))
G['timeless_def'] = PRE(':timeless', LIST1(LITERAL(Call('name'))))
G['init_el'] = Alt(
    N('InitElement.Literal', LITERAL(Call('name'))),
    N('InitElement.At', PRE('at', Call('number'), SP(LITERAL(Call('name'))))),
    N('InitElement.IsValue', PRE('=', Call('basic_function_term'), SP(Call('number')))),
    N('InitElement.IsObject', PRE('=', Call('basic_function_term'), SP(Call('name')))))
G['problem_init_def'] = PRE(':init', LIST(Call('init_el')))
G['problem_goal_def'] = PRE(':goal', Call('pre_gd'))
G['problem_constraints_def'] = PRE(':constraints', Call('pref_con_gd'))
U64 = When(Text(Run(NAMED['digit'], 1, '0123'), 'u64'), u64_ok, lambda m, r: int(m) < 2 ** 64)
G['problem_length_spec'] = N('LengthSpec', PRE(
    ':length', Opt(PRE(':serial', U64)), Opt(Seq(WS0, PRE(':parallel', U64)))))


def FRAME(body):
    return Seq(WS0, EOL, body, WS0, EOL)


G['domain'] = Map(FRAME(PRE(
    'define', PRE('domain', Call('name')),
    OptElse(SP(PRE(':extends', LIST1(Call('name')))), EMPTY),
    OptElse(SP(Call('require_def')), EMPTY),
    OptElse(SP(Call('types_def')), EMPTY),
    OptElse(SP(Call('constants_def')), EMPTY),
    OptElse(SP(Call('predicates_def')), EMPTY),
    OptElse(SP(Call('functions_def')), EMPTY),
    OptElse(SP(Call('domain_constraints_def')), ('n', 'ConGD.And', (EMPTY,))),
    OptElse(SP(LIST1(Call('structure_def'))), EMPTY))),
    lambda t: ('n', 'Domain', t[1][:8] + (EMPTY, t[1][8])))
G['problem'] = Map(FRAME(PRE(
    'define', PRE('problem', Call('name')), SP(PRE(':domain', Call('name'))),
    OptElse(SP(Call('require_def')), EMPTY),
    OptElse(SP(Call('problem_objects_declaration')), EMPTY),
    SP(Call('problem_init_def')), SP(Call('problem_goal_def')),
    OptElse(SP(Call('problem_constraints_def')), EMPTY),
    Opt(SP(Call('problem_metric_spec'))), Opt(SP(Call('problem_length_spec'))))),
    lambda t: ('n', 'Problem', t[1]))

ALIAS = {n: e.name for n, e in G.items() if isinstance(e, Call)}
UNVALUED = ('ignore_eol_comment',)


def subexprs(e):
    yield e
    for k in ('es',):
        for x in getattr(e, k, ()):
            yield from subexprs(x)
    for k in ('e', 'sep'):
        x = getattr(e, k, None)
        if isinstance(x, Expr):
            yield from subexprs(x)


def calls_of(n):
    return sorted({x.name for x in subexprs(G[n]) if isinstance(x, Call)})


def hard():
    """parsers that may fail hard"""
    h = {n for n in G if any(isinstance(x, Cut) for x in subexprs(G[n]))}
    while True:
        h2 = h | {n for n in G if any(c in h for c in calls_of(n))}
        if h2 == h:
            return h
        h = h2


HARD = hard()
