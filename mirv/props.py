"""Which contracts each property rests on."""
import json
import os
import re
import grammar as GR

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COST = {n: i for i, n in enumerate(('domain', 'con_gd', 'require_key', 'gd', 'problem', 'timeless_def', 'init_el', 'pref_con_gd'))}


def by_cost(names):
    return sorted(names, key=lambda n: (COST.get(n, 99), n))


def closure(names):
    seen, todo = set(), list(names)
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += GR.calls_of(x)
    return seen


class Prop:
    def __init__(self, parsers=(), eqs=(), kinds=None, judge='agree', close=True, assumptions=(), plain=False, also=None):
        self.p, self.eqs, self.kinds, self.judge, self.close = parsers, eqs, kinds, judge, close
        self.assumptions = list(assumptions)
        self.also = re.compile(also) if also else None      # equations named after another property that say this one too
        self.plain = plain              # also for the crate built without its feature "interning"

    def parsers(self, P=None):
        if self.p == 'entries':
            return sorted(n for n in P.roots if n[:2] in ('s_', 't_')) + ['con2_gd']
        return sorted(closure(self.p)) if self.close else sorted(self.p)

    def equations(self, P):
        return sorted({n for n, _ in P.api if n.split('_')[0] in self.eqs or self.also and self.also.fullmatch(n)})

    def known_always(self, known, results):
        return []


TYPED = ('types_def', 'constants_def', 'problem_objects_declaration', 'functions_def', 'predicates_def')
VOCAB = ('assign_op', 'assign_op_t', 'binary_op', 'multi_op', 'binary_comp', 'd_op', 'interval', 'time_specifier',
         'optimization', 'require_key')


def has_keyword(n):
    import spec
    return n == 'name' or any(isinstance(x, spec.Lit) and x.s[-1:].isalnum() for x in GR.subexprs(GR.G[n]))


COLLECTIONS = ('effects|conditional_effect|durative_action_effect|duration|duration_constraint|precondition_goal_definitions|pref_con_gds|goal_def|'
               'typed_list|function_typed_list|constants|objects|types|functions|predicate_definitions|structure_defs|timeless|'
               'requirements|init_elements|type|function_type|domain_constraints_def|problem_constraints_def')
PROPS = {
    'C01': Prop(VOCAB, eqs=('c01',), close=False),
    'C02': Prop(('require_key', 'require_def'), eqs=('c02',), close=False, also='c17_requirements_.*|c17_(domain|problem)_(requirements|with_requirements)|'
                'c01_requirement_eq|c20_requirements?_.*'),
    'C03': Prop(('number',), eqs=('c03',), close=False),
    'C04': Prop(('name',), eqs=('c04',), close=False, plain=True),
    'C05': Prop(TYPED + ('gd', 'pre_gd', 'forall_c_effect', 'con_gd', 'pref_con_gd', 'da_gd', 'da_effect', 'action_def',
                         'da_def', 'atomic_formula_skeleton', 'atomic_function_skeleton', 'type', 'primitive_type',
                         'function_type', 'variable', 'name', 'ignore_eol_comment'), close=False,
                also='c17_(typed|type|function_type|function_typed|primitive_type|typed_list|function_typed_list)_.*|c19_(type|typed_list)_(items|len|iter)|'
                     'c20_(type|function_type|primitive_type|typed_.*|function_typed.*)_(eq|ne|clone)'),
    'C06': Prop(('name', 'variable', 'term', 'function_term', 'f_head', 'basic_function_term', 'predicate', 'function_symbol',
                 'pref_name', 'action_symbol', 'da_symbol', 'gd', 'p_effect', 'init_el', 'problem_init_def', 'timeless_def',
                 'number', 'ignore_eol_comment'), close=False),
    'C07': Prop(('gd', 'pref_gd', 'pre_gd', 'problem_goal_def', 'derived_predicate')),
    'C08': Prop(('effect', 'c_effect', 'p_effect', 'cond_effect', 'forall_c_effect', 'when_c_effect', 'action_def')),
    'C09': Prop(('f_exp', 'f_exp_da', 'f_exp_t', 'f_assign_da', 'metric_f_exp', 'f_comp', 'f_head', 'problem_metric_spec')),
    'C10': Prop(('con_gd', 'pref_con_gd', 'domain_constraints_def', 'problem_constraints_def')),
    'C11': Prop(('da_def', 'da_gd', 'da_effect', 'duration_constraint')),
    'C12': Prop(('domain',)),
    'C13': Prop(('problem',)),
    'C14': Prop(tuple(GR.G), kinds=('accept', 'reject', 'fail', 'rest', 'value', 'form'), judge='layout', close=False),
    'C15': Prop(tuple(GR.G), kinds=('no-panic', 'progress', 'layout', 'descent', 'incomplete'), judge='total'),
    'C16': Prop(tuple(GR.G), kinds=('accept', 'reject', 'fail', 'rest', 'form'), judge='accept',
                close=False),
    'C17': Prop((), eqs=('c17',), close=False,
                also='c01_(.*_(as_str|as_ref|borrow)|multi_to_binary|binary_to_multi)|c03_(try_new|new.*|from_.*|default)|'
                     'c04_(new_.*|from_.*|as_ref|default|len|is_empty|constructors_agree)|c19_.*_(iter|items|single|into_single)'),
    'C18': Prop('entries', judge='forms', eqs=('c18',), kinds=('accept', 'reject', 'fail', 'rest', 'value', 'form', 'no-panic', 'reachable'), close=False),
    'C19': Prop((), eqs=('c19',), close=False, also='c17_(' + COLLECTIONS + ')_(new|new_and|new_all|of_single|of_all|from|from_.*|values?|deref|as_ref|'
                'collected.*|to_vec|goal|preference|forall)|c17_preconditions_from_goal_def'),
    'C20': Prop((), eqs=('c20',), close=False,
                also='c01_.*_eq(_.*)?|c03_(clone|cmp|partial_cmp|eq|ne|lt|le|gt|ge|hash|zero_hash|transitive|total|order_equal)|'
                     'c04_(eq|ne|eq_.*|hash|clone|constructors_hash_alike)'),
}


# ------------------------------------------------------------------------------ witnesses
def j_total(t, e, g):
    if g[0] in ('panic', 'crash', 'hang'):
        return True
    if g[0] == 'err':
        return g[1] == 0
    if g[0] == 'ok':
        return g[1] > len(t.encode())
    return True


def form(t):
    return t[:2] if isinstance(t, list) and t and t[0] == 'n' else None


def j_accept(t, e, g):
    if e[0] != g[0] or (e[0] == 'ok' and e[1] != g[1]) or (g[0] == 'err' and g[1] == 0):
        return True
    return e[0] == 'ok' and form(e[2]) != form(g[2]) and e[2] is not None


JUDGES = {'agree': None, 'forms': 'forms', 'layout': 'layout', 'total': j_total, 'accept': j_accept}


# ------------------------------------------------------------------------------ findings
def known_findings():
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                out.append(json.loads(line))
    return out


def known(findings, pid, name, failed, w):
    for k in findings:
        if k['property'] == pid and k['function'] == name:
            if failed and all(any(o[2] == x for x in k['where']) for o in failed):
                return k['what']
            if not failed and w and w.get('text') in k.get('texts', ()):
                return k['what']
    return None


# ------------------------------------------------------------------------------ what is trusted
ASSUMPTIONS = [
    'rustc up to MIR, the MIR dumper and the verification-condition generator of /verif are correct; z3 and cvc5 are sound',
    'library functions (nom, nom_locate, nom_greedyerror, std) mean what trusted_base says; nom combinators that are not listed there are executed from their MIR',
    'floats are IEEE binary32; a decimal literal denotes the nearest one; lengths of sequences are below 2^60; usize and u64 arithmetic is exact (overflow is an obligation)',
    'sequential execution: the interning table is touched only under its lock, which is never poisoned (no panic while it is held is an obligation of C04)',
    'stack depth and memory are not bounded by the proof (termination is)',
    'positions and messages of errors are not specified, only their kind',
]


def trusted(results):
    ms = sorted({m for r in results.values() for m in r['models'] if 'roots::' not in m})
    own = [m for m in ms if 'pddl' in m]
    ms = [m for m in ms if 'pddl' not in m]
    return ['z3 and cvc5', 'rustc up to monomorphic MIR (the MIR is what the compiler goes on to translate), /verif/mirdump',
            '/verif/mirv: symbolic execution of MIR and the theory of text positions',
            'library functions replaced by their documented meaning: ' + ', '.join(ms)] + (
            ['functions of the crate used by their contract in place of their body, each proved on its own (Name by its text: C04; eq and '
             'clone of smaller parts by structural induction: C20): ' + ', '.join(own)] if own else [])
