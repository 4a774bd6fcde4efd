# C17 construction and access, C19 collections and iterators (executed by gen_api.py)
import itertools


def params(s):
    """splits 'A,B<C,D>,E' at the outer commas"""
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch in '<([':
            depth += 1
        if ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur] if cur else out


ABC = 'p q r s t u v w z'.split()


def built(key, make, types, label, box=()):
    """`make` applied to one argument per type gives the node `label` with exactly those parts"""
    ts = params(types)
    vs = ABC[:len(ts)]
    args = ', '.join(f'{v}: {t}' for v, t in zip(vs, ts))
    kids = ', '.join(f'{v}.d()' for v in vs)
    call = make.format(', '.join(vs)) if '{}' in make else make + '(' + ', '.join(vs) + ')'
    right = f'node("{label}", [{kids}])' if label else kids
    eq('c17_' + key, args, f'({call}).d()', right)


def low(s):
    return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', s).lower()


# ---- enumerations: constructor:Variant(parts); a trailing ! gives the conversions (From) that must build that variant
ENUMS = {
    'CEffect': 'new_p_effect:Effect(PEffect)! :Forall(ForallCEffect)! :When(WhenCEffect)!',
    'ConGD': 'new_and:And(Vec<ConGD>) new_forall:Forall(TypedVariables,ConGD) new_at_end:AtEnd(GoalDefinition) '
             'new_always:Always(Con2GD) new_sometime:Sometime(Con2GD) new_within:Within(Number,Con2GD) '
             'new_at_most_once:AtMostOnce(Con2GD) new_sometime_after:SometimeAfter(Con2GD,Con2GD) '
             'new_sometime_before:SometimeBefore(Con2GD,Con2GD) new_always_within:AlwaysWithin(Number,Con2GD,Con2GD) '
             'new_hold_during:HoldDuring(Number,Number,Con2GD) new_hold_after:HoldAfter(Number,Con2GD)',
    'Con2GD': 'new_nested:Nested(ConGD)! new_goal:Goal(GoalDefinition)!',
    'ConditionalEffect': 'new:Single(PEffect)! new_and:All(Vec<PEffect>)!+',
    'DurationValue': 'new_number:Number(Number)! new_f_exp:FExp(FExp)!',
    'DurationConstraint': 'new:Single(SimpleDurationConstraint)!',
    'DurativeActionEffect': 'new_timed:Timed(TimedEffect)! new_and:All(Vec<DurativeActionEffect>)+ '
                            'new_forall:Forall(TypedVariables,DurativeActionEffect)! '
                            'new_when:When(DurativeActionGoalDefinition,TimedEffect)!',
    'DurativeActionGoalDefinition': 'new_timed:Timed(PrefTimedGD)! new_and:And(Vec<DurativeActionGoalDefinition>) '
                                    'new_forall:Forall(TypedVariables,DurativeActionGoalDefinition)',
    'FExp': 'new_number:Number(Number) new_binary_op:BinaryOp(BinaryOp,FExp,FExp) '
            'new_multi_op:MultiOp(MultiOp,FExp,Vec<FExp>) new_negative:Negative(FExp) new_function:Function(FHead)',
    'FExpDa': 'new_duration:Duration() new_binary_op:BinaryOp(BinaryOp,FExpDa,FExpDa) '
              'new_multi_op:MultiOp(MultiOp,FExpDa,Vec<FExpDa>) new_negative:Negative(FExpDa) new_f_exp:FExp(FExp)!',
    'FExpT': 'new:Now() new_scaled:Scaled(FExp)!',
    'FHead': 'new:Simple(FunctionSymbol) new_with_terms:WithTerms(FunctionSymbol,Vec<Term>)',
    'GoalDefinition': 'new_atomic_formula:AtomicFormula(AtomicFormula<Term>) new_literal:Literal(TermLiteral) '
                      'new_and:And(Vec<GoalDefinition>) new_or:Or(Vec<GoalDefinition>) new_not:Not(GoalDefinition) '
                      'new_imply:Imply(GoalDefinition,GoalDefinition) new_exists:Exists(TypedVariables,GoalDefinition) '
                      'new_forall:ForAll(TypedVariables,GoalDefinition) new_f_comp:FComp(FComp)',
    'InitElement': 'new_literal:Literal(NameLiteral) new_at:At(Number,NameLiteral) '
                   'new_is_value:IsValue(BasicFunctionTerm,Number) new_is_object:IsObject(BasicFunctionTerm,Name)',
    'MetricFExp': 'new_binary_op:BinaryOp(BinaryOp,MetricFExp,MetricFExp) new_negative:Negative(MetricFExp) '
                  'new_number:Number(Number) new_function:Function(FunctionSymbol,Vec<Name>) new_total_time:TotalTime() '
                  'new_is_violated:IsViolated(PreferenceName)',
    'PEffect': 'new:AtomicFormula(AtomicFormula<Term>) new_not:NotAtomicFormula(AtomicFormula<Term>) '
               'new_numeric_fluent:AssignNumericFluent(AssignOp,FHead,FExp) '
               'new_object_fluent:AssignObjectFluent(FunctionTerm,Option<Term>)',
    'PreconditionGoalDefinition': 'new_preference:Preference(PreferenceGD)! '
                                  'new_forall:Forall(TypedVariables,PreconditionGoalDefinitions)',
    'PrefConGD': 'new_goal:Goal(ConGD) new_forall:Forall(TypedVariables,PrefConGDs) '
                 'new_preference:Preference(Option<PreferenceName>,ConGD)',
    'PreferenceGD': 'from_gd:Goal(GoalDefinition)! from_preference:Preference(Preference)!',
    'PrefTimedGD': 'new_required:Required(TimedGD)! new_preference:Preference(Option<PreferenceName>,TimedGD)!',
    'SimpleDurationConstraint': 'new_op:Op(DOp,DurationValue)! new_at:At(TimeSpecifier,SimpleDurationConstraint)!',
    'StructureDef': 'new_action:Action(ActionDefinition)! new_durative_action:DurativeAction(DurativeActionDefinition)! '
                    'new_derived:Derived(DerivedPredicate)!',
    'Term': 'new_name:Name(Name)! new_variable:Variable(Variable)! new_function:Function(FunctionTerm)!',
    'TimedEffect': 'new_conditional:Conditional(TimeSpecifier,ConditionalEffect)! '
                   'new_fluent:NumericFluent(TimeSpecifier,FAssignDa)! '
                   'new_continuous:ContinuousEffect(AssignOpT,FHead,FExpT)!',
    'TimedGD': 'new_at:At(TimeSpecifier,GoalDefinition)! new_over:Over(Interval,GoalDefinition)!',
    'Literal<Term>': 'new:AtomicFormula(AtomicFormula<Term>)! new_not:NotAtomicFormula(AtomicFormula<Term>)',
    'AtomicFormula<Term>': ':Equality(EqualityAtomicFormula<Term>)! :Predicate(PredicateAtomicFormula<Term>)!',
    'Type': ':Exactly(PrimitiveType)! :EitherOf(Vec<PrimitiveType>)!+',
}
for t, spec in ENUMS.items():
    nm = t.split('<')[0]
    for w in spec.split():
        m = re.match(r'(\w*):(\w+)\((.*)\)(!?)(\+?)$', w)
        how, var, types, conv, coll = m.groups()
        tt = f'<{t}>' if '<' in t else t
        if how:
            built(f'{low(nm)}_{how}', f'{tt}::{how}', types, f'{nm}.{var}')
        if conv:
            ts = params(types)
            built(f'{low(nm)}_of_{low(var)}', f'<{t} as From<{types if len(ts) == 1 else "(" + types + ")"}>>::from'
                  + ('' if len(ts) == 1 else '(({}))'), types, f'{nm}.{var}')
        if coll:
            item = re.match(r'Vec<(.*)>$', types).group(1)
            built(f'{low(nm)}_collected', '{}.into_iter().collect::<%s>()' % t, types, f'{nm}.{var}')

# ---- structures: parts:accessor (a leading - means a public field), in the order of the constructor; flags after ;
STRUCTS = {
    'ActionDefinition': 'ActionSymbol:symbol TypedVariables:parameters PreconditionGoalDefinitions:precondition Option<Effects>:effect',
    'DurativeActionDefinition': 'DurativeActionSymbol:symbol TypedVariables:parameters Option<DurationConstraint>:duration '
                                'Option<DurativeActionGoalDefinition>:condition Option<DurativeActionEffect>:effect',
    'EqualityAtomicFormula<Term>': 'Term:first Term:second ;from',
    'PredicateAtomicFormula<Term>': 'Predicate:predicate Vec<Term>:values ;from',
    'AtomicFormulaSkeleton': 'Predicate:predicate TypedVariables:variables ;from',
    'AtomicFunctionSkeleton': 'FunctionSymbol:symbol TypedVariables:variables ;from',
    'BasicFunctionTerm': 'FunctionSymbol:symbol Vec<Name>:names',
    'FunctionTerm': 'FunctionSymbol:symbol Vec<Term>:terms',
    'ForallCEffect': 'TypedVariables:-variables Effects:-effects ;from',
    'WhenCEffect': 'GoalDefinition:-condition ConditionalEffect:-effect ;from',
    'DerivedPredicate': 'AtomicFormulaSkeleton:predicate GoalDefinition:expression ;from',
    'FAssignDa': 'AssignOp:operation FHead:function FExpDa:function_expr ;from',
    'FComp': 'BinaryComp:comparison FExp:first FExp:second ;from',
    'MetricSpec': 'Optimization:optimization MetricFExp:expression',
    'Preference': 'Option<PreferenceName>:name GoalDefinition:goal ;from',
    'Typed<Name>': 'Name:value Type:type_',
    'FunctionTyped<Name>': 'Name:value_ref FunctionType:type_ref',
    'LengthSpec': 'Option<u64>:serial Option<u64>:parallel',
    'Problem': 'Name:name Name:domain Requirements:requirements Objects:objects InitElements:init GoalDef:goals '
               'ProblemConstraintsDef:constraints Option<MetricSpec>:metric_spec Option<LengthSpec>:length_spec',
}
for t, spec in STRUCTS.items():
    nm = t.split('<')[0]
    tt = f'<{t}>' if '<' in t else t
    spec, _, flags = spec.partition(' ;')
    fs = [w.rsplit(':', 1) for w in spec.split()]
    types = ','.join(f[0] for f in fs)
    built(f'{low(nm)}_new', f'{tt}::new', types, nm)
    if 'from' in flags:
        built(f'{low(nm)}_from_parts', f'<{t} as From<({types})>>::from(({{}}))', types, nm)
    args = ', '.join(f'{v}: {f[0]}' for v, f in zip(ABC, fs))
    vs = ', '.join(ABC[:len(fs)])
    for v, (ty, acc) in zip(ABC, fs):
        read = f'x.{acc[1:]}' if acc[0] == '-' else f'x.{acc}()'
        eq(f'c17_{low(nm)}_{acc.strip("-")}', args, f'let x = {tt}::new({vs}); {read}.d()', f'{v}.d()')

# ---- wrappers: what is put in is what is read out, in every way of putting in and reading out
for t, inner, ways in (
        ('Constants', 'TypedNames', 'new from deref collect'), ('Types', 'TypedNames', 'new from values deref'),
        ('Objects', 'TypedNames', 'new from values deref collect'), ('Functions', 'FunctionTypedList<AtomicFunctionSkeleton>', 'new from values deref collect'),
        ('DomainConstraintsDef', 'ConGD', 'new from value deref'), ('GoalDef', 'PreconditionGoalDefinitions', 'new from value deref collect'),
        ('ProblemConstraintsDef', 'PrefConGDs', 'new from value deref'),
        ('FunctionType', 'Type', 'new from deref'),
        ('Timeless', 'Vec<NameLiteral>', 'new values deref collect'), ('StructureDefs', 'Vec<StructureDef>', 'new from values deref collect'),
        ('InitElements', 'Vec<InitElement>', 'new values deref collect'),
        ('PredicateDefinitions', 'Vec<AtomicFormulaSkeleton>', 'new from values deref collect'),
        ('Requirements', 'Vec<Requirement>', 'new from deref collect'),
        ('Effects', 'Vec<CEffect>', 'new_and from deref as_ref iter collect items'),
        ('PreconditionGoalDefinitions', 'Vec<PreconditionGoalDefinition>', 'new deref as_ref iter collect items vec'),
        ('PrefConGDs', 'Vec<PrefConGD>', 'new from deref as_ref iter collect items vec'),
        ('TypedList<Name>', 'Vec<Typed<Name>>', 'new from value deref collect items'),
        ('FunctionTypedList<Name>', 'Vec<FunctionTyped<Name>>', 'new from values deref collect')):
    nm = low(t.split('<')[0])
    tt = f'<{t}>' if '<' in t else t
    ways = ways.split()
    new = ways[0]
    islist = inner.startswith('Vec<')
    item = inner[4:-1] if islist else None
    newer = f'{tt}::{new}({{}})'
    eq(f'c17_{nm}_{new}', f'p: {inner}', f'{tt}::{new}(p).d()', 'p.d()')
    if 'from' in ways:
        eq(f'c17_{nm}_from', f'p: {inner}', f'<{t} as From<{inner}>>::from(p).d()', 'p.d()')
    for w in ways:
        if w in ('value', 'values'):
            eq(f'c17_{nm}_{w}', f'p: {inner}', f'{tt}::{new}(p).{w}().d()', 'p.d()')
        if w == 'deref':
            eq(f'c17_{nm}_deref', f'p: {inner}', f'let x = {tt}::{new}(p); (&*x).d()', 'p.d()')
        if w == 'as_ref':
            eq(f'c17_{nm}_as_ref', f'p: {inner}', f'let x = {tt}::{new}(p); AsRef::<[{item}]>::as_ref(&x).d()', 'p.d()')
        if w == 'iter':
            eq(f'c19_{nm}_iter', f'p: {inner}', f'let x = {tt}::{new}(p); T::List(x.iter().map(|y| y.d()).collect())', 'p.d()')
        if w == 'items':
            eq(f'c19_{nm}_items', f'p: {inner}', f'let x = {tt}::{new}(p); x.into_iter().collect::<Vec<_>>().d()', 'p.d()')
        if w == 'vec':
            eq(f'c17_{nm}_to_vec', f'p: {inner}', f'let x = {tt}::{new}(p); Vec::<{item}>::from(x).d()', 'p.d()')
        if w == 'collect':
            if islist:
                eq(f'c17_{nm}_collected', f'p: {inner}', f'p.into_iter().collect::<{t}>().d()', 'p.d()')
            else:
                it = {'TypedNames': 'Typed<Name>', 'PreconditionGoalDefinitions': 'PreconditionGoalDefinition'}.get(inner, 'FunctionTyped<AtomicFunctionSkeleton>')
                eq(f'c17_{nm}_collected', f'p: Vec<{it}>', f'p.into_iter().collect::<{t}>().d()', 'p.d()')

# ---- names in a role
for t in 'ActionSymbol DurativeActionSymbol FunctionSymbol Predicate PreferenceName Variable PrimitiveType'.split():
    nm = low(t)
    eq(f'c17_{nm}_new', 'p: Name', f'{t}::new(p).d()', 'p.d()')
    eq(f'c17_{nm}_from_any_name', 'p: Name', f'<{t} as From<Name>>::from(p).d()', 'p.d()')
    eq(f'c17_{nm}_from_any_str', "p: &'static str", f'<{t} as From<&str>>::from(p).d()', 'text(p)')
    eq(f'c17_{nm}_from_any_string', 'p: String', f'<{t} as From<String>>::from(p.clone()).d()', 'text(&p)')
    if t != 'PrimitiveType':
        eq(f'c17_{nm}_from_str', "p: &'static str", f'{t}::from_str(p).d()', 'text(p)')
        eq(f'c17_{nm}_from_name', 'p: Name', f'{t}::from_name(p).d()', 'p.d()')
        eq(f'c17_{nm}_deref', 'p: Name', f'let x = {t}::new(p); (&*x).d()', 'p.d()')
    else:
        eq(f'c17_{nm}_deref', 'p: Name', f'let x = {t}::new(p); text(&*x)', 'text(&p)')
    if t in ('Predicate', 'PreferenceName', 'Variable'):
        eq(f'c17_{nm}_from_static', "p: &'static str", f'{t}::from_static(p).d()', 'text(p)')
    if t not in ('PreferenceName', 'PrimitiveType'):
        eq(f'c17_{nm}_as_name', 'p: Name', f'let x = {t}::new(p); AsRef::<Name>::as_ref(&x).d()', 'p.d()')
    if t != 'PreferenceName':
        eq(f'c17_{nm}_as_str', 'p: Name', f'let x = {t}::new(p); text(AsRef::<str>::as_ref(&x))', 'text(&p)')

# ---- types
EX = 'node("Type.Exactly", [{}])'
OBJ, NUM_ = EX.format('text("object")'), EX.format('text("number")')
OTH = 'node("Type.EitherOf", [T::List(p.iter().map(|x| text(x)).collect())])'
eq('c17_type_object', '', 'Type::OBJECT.d()', OBJ)
eq('c17_type_number', '', 'Type::NUMBER.d()', NUM_)
eq('c17_type_default', '', 'Type::default().d()', OBJ)
eq('c17_function_type_number', '', 'FunctionType::NUMBER.d()', NUM_)
eq('c17_function_type_default', '', 'FunctionType::default().d()', NUM_)
eq('c17_type_from_str', "p: &'static str", 'Type::from(p).d()', EX.format('text(p)'))
eq('c17_function_type_from_str', "p: &'static str", '<FunctionType as From<&str>>::from(p).d()', EX.format('text(p)'))
eq('c17_type_from_strs', "p: Vec<&'static str>", 'Type::from(p).d()', OTH)
eq('c17_function_type_from_strs', "p: Vec<&'static str>", '<FunctionType as From<Vec<&str>>>::from(p).d()', OTH)
eq('c17_type_collected_names', 'p: Vec<Name>', 'p.into_iter().collect::<Type>().d()', OTH)
eq('c17_function_type_inherent', 'p: Type', 'FunctionType::from(p).d()', 'p.d()')
eq('c17_typed_object', 'p: Name', 'Typed::new_object(p).d()', f'node("Typed", [p.d(), {OBJ}])')
eq('c17_typed_from', 'p: Name', 'Typed::from(p).d()', f'node("Typed", [p.d(), {OBJ}])')
eq('c17_typed_deref', 'p: Name, q: Type', 'let x = Typed::new(p, q); (&*x).d()', 'p.d()')
eq('c17_function_typed_number', 'p: Name', 'FunctionTyped::new_number(p).d()', f'node("FunctionTyped", [p.d(), {NUM_}])')
eq('c17_function_typed_from', 'p: Name', 'FunctionTyped::from(p).d()', f'node("FunctionTyped", [p.d(), {NUM_}])')
eq('c17_function_typed_from_type', 'p: Name, q: Type', 'FunctionTyped::from_type(p, q).d()', 'node("FunctionTyped", [p.d(), q.d()])')
eq('c17_function_typed_deref', 'p: Name, q: FunctionType', 'let x = FunctionTyped::new(p, q); (&*x).d()', 'p.d()')
for t in ('Name', 'Variable'):
    eq(f'c17_{low(t)}_to_typed', f'p: {t}, q: Type', 'p.to_typed(q).d()', 'node("Typed", [p.d(), q.d()])')
    eq(f'c17_{low(t)}_to_typed_str', f"p: {t}, q: &'static str", 'p.to_typed(q).d()', 'node("Typed", [p.d(), %s])' % EX.format('text(q)'))
    eq(f'c17_{low(t)}_to_typed_either', f"p: {t}, q: Vec<&'static str>", 'p.to_typed_either(q).d()',
       'node("Typed", [p.d(), %s])' % OTH.replace('p.iter', 'q.iter'))

# ---- more conversions
eq('c17_conditional_effect_from_item', 'p: PEffect', 'ConditionalEffect::from(p).d()', 'node("ConditionalEffect.Single", [p.d()])')
eq('c17_c_effect_new_forall', 'p: TypedVariables, q: Effects', 'CEffect::new_forall(p, q).d()', 'node("CEffect.Forall", [node("ForallCEffect", [p.d(), q.d()])])')
eq('c17_c_effect_new_when', 'p: GoalDefinition, q: ConditionalEffect', 'CEffect::new_when(p, q).d()', 'node("CEffect.When", [node("WhenCEffect", [p.d(), q.d()])])')
for v, t in (('Effect', 'PEffect'), ('Forall', 'ForallCEffect'), ('When', 'WhenCEffect')):
    eq(f'c17_c_effect_into_{low(v)}', 'p: CEffect', f'TryInto::<{t}>::try_into(p).d()',
       f'match p {{ CEffect::{v}(x) => node("ok", [x.d()]), _ => node("err", []) }}')
eq('c17_gd_imply_tuple', 'p: GoalDefinition, q: GoalDefinition', 'GoalDefinition::new_imply_tuple((p, q)).d()', 'node("GoalDefinition.Imply", [p.d(), q.d()])')
eq('c17_gd_exists_tuple', 'p: TypedVariables, q: GoalDefinition', 'GoalDefinition::new_exists_tuple((p, q)).d()', 'node("GoalDefinition.Exists", [p.d(), q.d()])')
eq('c17_gd_forall_tuple', 'p: TypedVariables, q: GoalDefinition', 'GoalDefinition::new_forall_tuple((p, q)).d()', 'node("GoalDefinition.ForAll", [p.d(), q.d()])')
eq('c17_con_gd_from_domain', 'p: DomainConstraintsDef', 'ConGD::from(p).d()', 'p.d()')
eq('c17_con_gd_default', '', 'ConGD::default().d()', 'node("ConGD.And", [T::List(Vec::new())])')
eq('c17_domain_constraints_default', '', 'DomainConstraintsDef::default().d()', 'node("ConGD.And", [T::List(Vec::new())])')
eq('c17_f_exp_t_default', '', 'FExpT::default().d()', 'node("FExpT.Now", [])')
eq('c17_requirement_default', '', 'Requirement::default().d()', 'node("Requirement.Strips", [])')
eq('c17_length_serial', 'p: u64', 'LengthSpec::new_serial(p).d()', 'node("LengthSpec", [node("some", [p.d()]), node("none", [])])')
eq('c17_length_parallel', 'p: u64', 'LengthSpec::new_parallel(p).d()', 'node("LengthSpec", [node("none", []), node("some", [p.d()])])')
eq('c17_f_exp_number_f32', 'p: i32', 'FExp::new_number(p).d()', 'node("FExp.Number", [num(p as f32)])')
eq('c17_metric_number_f32', 'p: i32', 'MetricFExp::new_number(p).d()', 'node("MetricFExp.Number", [num(p as f32)])')
eq('c17_duration_number', 'p: i32', 'DurationValue::new_number(p).d()', 'node("DurationValue.Number", [num(p as f32)])')
eq('c17_metric_multi', 'p: MultiOp, q: MetricFExp, r: Vec<MetricFExp>',
   'if r.is_empty() { b(true) } else { MetricFExp::new_multi_op(p, q, r).d() }',
   'if r.is_empty() { b(true) } else { node("MetricFExp.MultiOp", [p.d(), q.d(), r.d()]) }')
for how, call in (('new_all', 'DurationConstraint::new_all(p)'), ('collected', 'p.into_iter().collect::<DurationConstraint>()')):
    eq(f'c17_duration_{how}', 'p: Vec<SimpleDurationConstraint>', f'if p.is_empty() {{ b(true) }} else {{ {call}.d() }}',
       'if p.is_empty() { b(true) } else { node("DurationConstraint.All", [p.d()]) }')
eq('c17_formula_equality', 'p: Term, q: Term', '<AtomicFormula<Term>>::new_equality(p, q).d()',
   'node("AtomicFormula.Equality", [node("EqualityAtomicFormula", [p.d(), q.d()])])')
eq('c17_formula_predicate', 'p: Predicate, q: Vec<Term>', '<AtomicFormula<Term>>::new_predicate(p, q).d()',
   'node("AtomicFormula.Predicate", [node("PredicateAtomicFormula", [p.d(), q.d()])])')
eq('c17_literal_is_negated', 'p: Literal<Term>', 'b(p.is_negated())', 'b(matches!(p, Literal::NotAtomicFormula(_)))')
eq('c17_preference_from_name', 'p: PreferenceName, q: GoalDefinition', '<Preference as From<(PreferenceName, GoalDefinition)>>::from((p, q)).d()',
   'node("Preference", [node("some", [p.d()]), q.d()])')
eq('c17_preference_from_goal', 'q: GoalDefinition', '<Preference as From<GoalDefinition>>::from(q).d()', 'node("Preference", [node("none", []), q.d()])')
eq('c17_precondition_from_preference', 'p: Preference', '<PreconditionGoalDefinition as From<Preference>>::from(p).d()',
   'node("PreconditionGoalDefinition.Preference", [node("PreferenceGD.Preference", [p.d()])])')
eq('c17_precondition_and', 'p: Vec<PreconditionGoalDefinition>', 'PreconditionGoalDefinition::new_and(p).d()', 'p.d()')
eq('c17_preconditions_preference', 'p: PreferenceGD', 'PreconditionGoalDefinitions::new_preference(p).d()',
   'T::List(vec![node("PreconditionGoalDefinition.Preference", [p.d()])])')
eq('c17_preconditions_forall', 'p: TypedVariables, q: PreconditionGoalDefinitions', 'PreconditionGoalDefinitions::new_forall(p, q).d()',
   'T::List(vec![node("PreconditionGoalDefinition.Forall", [p.d(), q.d()])])')
eq('c17_pref_con_gds_goal', 'p: ConGD', 'PrefConGDs::new_goal(p).d()', 'T::List(vec![node("PrefConGD.Goal", [p.d()])])')
eq('c17_pref_con_gds_from_goal', 'p: ConGD', '<PrefConGDs as From<ConGD>>::from(p).d()', 'T::List(vec![node("PrefConGD.Goal", [p.d()])])')
eq('c17_pref_con_gds_preference', 'p: Option<PreferenceName>, q: ConGD', 'PrefConGDs::new_preference(p, q).d()',
   'T::List(vec![node("PrefConGD.Preference", [p.d(), q.d()])])')
eq('c17_pref_con_gds_forall', 'p: TypedVariables, q: PrefConGDs', 'PrefConGDs::new_forall(p, q).d()',
   'T::List(vec![node("PrefConGD.Forall", [p.d(), q.d()])])')
eq('c17_effects_new', 'p: CEffect', 'Effects::new(p).d()', 'T::List(vec![p.d()])')
for t, item in (('PreconditionGoalDefinitions', 'PreconditionGoalDefinition'), ('PrefConGDs', 'PrefConGD'), ('Effects', 'CEffect')):
    nm = low(t)
    eq(f'c17_{nm}_from_item', f'p: {item}', f'<{t} as From<{item}>>::from(p).d()', 'T::List(vec![p.d()])')
    if t != 'Effects':
        eq(f'c17_{nm}_from_option', f'p: Option<{item}>', f'<{t} as From<Option<{item}>>>::from(p).d()',
           'match p { Some(x) => T::List(vec![x.d()]), None => T::List(Vec::new()) }')
        eq(f'c17_{nm}_from_optional_list', f'p: Option<{t}>', f'<{t} as From<Option<{t}>>>::from(p).d()',
           'match p { Some(x) => x.d(), None => T::List(Vec::new()) }')
    eq(f'c19_{nm}_len', f'p: {t}', 'int(p.len() as u64)', 'int((&*p).len() as u64)')
    eq(f'c19_{nm}_is_empty', f'p: {t}', 'b(p.is_empty())', 'b((&*p).len() == 0)')
    eq(f'c19_{nm}_single', f'p: {t}', 'p.try_get_single().d()', 'if (&*p).len() == 1 { node("some", [p[0].d()]) } else { node("none", []) }')
    eq(f'c19_{nm}_into_single', f'p: {t}', f'TryInto::<{item}>::try_into(p).d()', 'if (&*p).len() == 1 { node("ok", [p[0].d()]) } else { node("err", []) }')
eq('c17_goal_def_from_item', 'p: PreconditionGoalDefinition', '<GoalDef as From<PreconditionGoalDefinition>>::from(p).d()', 'T::List(vec![p.d()])')
eq('c17_preconditions_from_goal_def', 'p: GoalDef', '<PreconditionGoalDefinitions as From<GoalDef>>::from(p).d()', 'p.d()')
eq('c17_pref_con_gds_from_def', 'p: ProblemConstraintsDef', '<PrefConGDs as From<ProblemConstraintsDef>>::from(p).d()', 'p.d()')
eq('c17_skeleton_name', 'p: Predicate, q: TypedVariables', 'AtomicFormulaSkeleton::new(p, q).name().d()', 'p.d()')
eq('c17_function_skeleton_from_vec', 'p: FunctionSymbol, q: Vec<Typed<Variable>>',
   '<AtomicFunctionSkeleton as From<(FunctionSymbol, Vec<Typed<Variable>>)>>::from((p, q)).d()', 'node("AtomicFunctionSkeleton", [p.d(), q.d()])')
for t, args, reads in (
        ('ActionDefinition', 'ActionSymbol TypedVariables PreconditionGoalDefinitions Option<Effects>', '0'),
        ('BasicFunctionTerm', 'FunctionSymbol Vec<Name>:[Name]', '01'), ('FunctionTerm', 'FunctionSymbol Vec<Term>', '01'),
        ('DerivedPredicate', 'AtomicFormulaSkeleton GoalDefinition', '01'),
        ('DurativeActionDefinition', 'DurativeActionSymbol TypedVariables Option<DurationConstraint> Option<DurativeActionGoalDefinition> Option<DurativeActionEffect>', '01234')):
    ps = [a.split(':') for a in args.split()]
    for i in reads:
        ty = ps[int(i)][-1]
        eq(f'c17_{low(t)}_as_ref_{i}', ', '.join(f'{v}: {a[0]}' for v, a in zip(ABC, ps)),
           f'let x = {t}::new({", ".join(ABC[:len(ps)])}); AsRef::<{ty}>::as_ref(&x).d()', f'{ABC[int(i)]}.d()')
eq('c17_formula_deref', 'p: Predicate, q: Vec<Term>', 'let x = <PredicateAtomicFormula<Term>>::new(p, q); (&*x).d()', 'q.d()')

# ---- domains and problems: the builder
DOM = 'name:Name extends:Vec<Name> requirements:Requirements types:Types constants:Constants predicates:PredicateDefinitions ' \
      'functions:Functions constraints:DomainConstraintsDef timeless:Timeless structure:StructureDefs'
DOMF = [w.split(':') for w in DOM.split()]
EMPTY = {'constraints': 'node("ConGD.And", [T::List(Vec::new())])', 'metric_spec': 'node("none", [])', 'length_spec': 'node("none", [])'}


def tree(label, fs, given):
    return f'node("{label}", [%s])' % ', '.join(f'{given[n]}.d()' if n in given else EMPTY_OF(label, n) for n, _ in fs)


def EMPTY_OF(label, n):
    return 'T::List(Vec::new())' if label == 'Problem' and n == 'constraints' else EMPTY.get(n, 'T::List(Vec::new())')


eq('c17_domain_builder', 'p: Name, q: StructureDefs', 'Domain::builder(p, q).d()', tree('Domain', DOMF, dict(name='p', structure='q')))
every = ''.join(f'.with_{n}({n})' for n, _ in DOMF if n not in ('name', 'structure'))
eq('c17_domain_built', ', '.join(f'{n}: {t}' for n, t in DOMF), f'Domain::builder(name, structure){every}.d()', tree('Domain', DOMF, {n: n for n, _ in DOMF}))
for n, t in DOMF:
    if n not in ('name', 'structure'):
        eq(f'c17_domain_with_{n}', f'x: Domain, p: {t}', f'x.with_{n}(p).d()',
           'node("Domain", [%s])' % ', '.join('p.d()' if m == n else f'x.{m}().d()' if m != 'extends' else 'x.extends().d()' for m, _ in DOMF))
for t in 'PredicateDefinitions Requirements Functions Types StructureDefs'.split():
    m = {'PredicateDefinitions': 'predicates', 'StructureDefs': 'structure'}.get(t, t.lower())
    eq(f'c17_domain_as_{m}', 'x: Domain', f'AsRef::<{t}>::as_ref(&x).d()', f'x.{m}().d()')
PROF = [w.rsplit(':', 1)[::-1] for w in STRUCTS['Problem'].split()]
eq('c17_problem_builder', 'p: Name, q: Name, r: InitElements, s: GoalDef', 'Problem::builder(p, q, r, s).d()',
   tree('Problem', PROF, dict(name='p', domain='q', init='r', goals='s')))
for n, t in PROF:
    if n in ('requirements', 'objects', 'constraints', 'metric_spec', 'length_spec'):
        ty = t[7:-1] if t.startswith('Option') else t
        eq(f'c17_problem_with_{n}', f'x: Problem, p: {ty}', f'x.with_{n}(p).d()',
           'node("Problem", [%s])' % ', '.join(('node("some", [p.d()])' if ty != t else 'p.d()') if m == n else f'x.{m}().d()' for m, _ in PROF))

# ------------------------------------------------------------------------------ C19 collections and iterators
for t, single, many, item in (('ConditionalEffect', 'Single', 'All', 'PEffect'), ('DurationConstraint', 'Single', 'All', 'SimpleDurationConstraint'),
                              ('Type', 'Exactly', 'EitherOf', 'PrimitiveType')):
    nm = low(t)
    eq(f'c19_{nm}_items', f'p: {t}', 'T::List(p.into_iter().map(|x| x.d()).collect())',
       f'match p {{ {t}::{single}(x) => T::List(vec![x.d()]), {t}::{many}(xs) => xs.d() }}')
    # the other ways through an iterator of the crate's own: a type may override any of them
    both = lambda a, b: f'match p {{ {t}::{single}(x) => {a}, {t}::{many}(xs) => {b} }}'
    eq(f'c19_{nm}_each', f'p: {t}', '{ let mut out = Vec::new(); p.into_iter().for_each(|x| out.push(x.d())); T::List(out) }',
       both('T::List(vec![x.d()])', 'xs.d()'))
    eq(f'c19_{nm}_fold', f'p: {t}', '{ let out = p.into_iter().fold(Vec::new(), |mut out, x| { out.push(x.d()); out }); T::List(out) }',
       both('T::List(vec![x.d()])', 'xs.d()'))
    eq(f'c19_{nm}_count', f'p: {t}', 'int(p.into_iter().count() as u64)', both('{ let _ = x; int(1) }', 'int(xs.len() as u64)'))
    for k in range(3):
        eq(f'c19_{nm}_nth_{k}', f'p: {t}', f'p.into_iter().nth({k}).d()',
           both('node("some", [x.d()])' if k == 0 else '{ let _ = x; node("none", []) }', f'xs.into_iter().nth({k}).d()'))
    eq(f'c19_{nm}_last', f'p: {t}', 'p.into_iter().last().d()', both('node("some", [x.d()])', 'xs.into_iter().last().d()'))
    eq(f'c19_{nm}_size_hint', f'p: {t}', '{ let i = p.into_iter(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) }',
       'b(true)')
    # ... and after one step
    eq(f'c19_{nm}_rest', f'p: {t}', '{ let mut i = p.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) }',
       both('node("pair", [node("some", [x.d()]), T::List(vec![])])',
            '{ let mut i = xs.into_iter(); let a = i.next(); node("pair", [a.d(), T::List(i.map(|x| x.d()).collect())]) }'))
    eq(f'c19_{nm}_rest_fold', f'p: {t}',
       '{ let mut i = p.into_iter(); let _ = i.next(); T::List(i.fold(Vec::new(), |mut out, x| { out.push(x.d()); out })) }',
       both('{ let _ = x; T::List(vec![]) }', '{ let mut i = xs.into_iter(); let _ = i.next(); T::List(i.map(|x| x.d()).collect()) }'))
    eq(f'c19_{nm}_rest_count', f'p: {t}', '{ let mut i = p.into_iter(); let _ = i.next(); int(i.count() as u64) }',
       both('{ let _ = x; int(0) }', '{ let mut i = xs.into_iter(); let _ = i.next(); int(i.count() as u64) }'))
    eq(f'c19_{nm}_rest_last', f'p: {t}', '{ let mut i = p.into_iter(); let _ = i.next(); i.last().d() }',
       both('{ let _ = x; node("none", []) }', '{ let mut i = xs.into_iter(); let _ = i.next(); i.last().d() }'))
    eq(f'c19_{nm}_rest_size_hint', f'p: {t}',
       '{ let mut i = p.into_iter(); let _ = i.next(); let (lo, hi) = i.size_hint(); let n = i.count(); b(lo <= n && hi.map_or(true, |hi| hi >= n)) }', 'b(true)')
    if t != 'ConditionalEffect':
        eq(f'c19_{nm}_len', f'p: {t}', 'int(p.len() as u64)', f'match &p {{ {t}::{single}(_) => int(1), {t}::{many}(xs) => int(xs.len() as u64) }}')
eq('c19_duration_constraint_is_empty', 'p: DurationConstraint', 'b(p.is_empty())',
   'match &p { DurationConstraint::Single(_) => b(false), DurationConstraint::All(xs) => b(xs.len() == 0) }')
GD_EMPTY = 'match &p { GoalDefinition::AtomicFormula(_) | GoalDefinition::Literal(_) | GoalDefinition::FComp(_) => b(false), ' \
    'GoalDefinition::And(xs) | GoalDefinition::Or(xs) => b(xs.iter().all(|x| x.is_empty())), ' \
    'GoalDefinition::Not(x) | GoalDefinition::Exists(_, x) | GoalDefinition::ForAll(_, x) => b(x.is_empty()), ' \
    'GoalDefinition::Imply(x, y) => b(x.is_empty() && y.is_empty()) }'
eq('c19_gd_is_empty', 'p: GoalDefinition', 'b(p.is_empty())', GD_EMPTY)
eq('c19_con_gd_is_empty', 'p: ConGD', 'b(p.is_empty())',
   'match &p { ConGD::And(xs) => b(xs.iter().all(|x| x.is_empty())), ConGD::Forall(_, x) => b(x.is_empty()), ConGD::AtEnd(x) => b(x.is_empty()), '
   'ConGD::Always(x) | ConGD::Sometime(x) | ConGD::AtMostOnce(x) | ConGD::Within(_, x) | ConGD::HoldAfter(_, x) | ConGD::HoldDuring(_, _, x) => b(x.is_empty()), '
   'ConGD::SometimeAfter(x, y) | ConGD::SometimeBefore(x, y) | ConGD::AlwaysWithin(_, x, y) => b(x.is_empty() && y.is_empty()) }')
eq('c19_con2_gd_is_empty', 'p: Con2GD', 'b(p.is_empty())', 'match &p { Con2GD::Goal(x) => b(x.is_empty()), Con2GD::Nested(x) => b(x.is_empty()) }')
eq('c19_pref_con_gd_is_empty', 'p: PrefConGD', 'b(p.is_empty())',
   'match &p { PrefConGD::Goal(x) | PrefConGD::Preference(_, x) => b(x.is_empty()), PrefConGD::Forall(_, x) => b(x.is_empty()) }')
eq('c19_preference_is_empty', 'p: Preference', 'b(p.is_empty())', 'b(p.goal().is_empty())')
eq('c19_typed_list_eq_vec', 'p: TypedList<Name>, q: Vec<Typed<Name>>', 'b(p == q)', 'b(same(&p.d(), &q.d()))')
eq('c19_typed_list_eq_slice', 'p: TypedList<Name>, q: Vec<Typed<Name>>', 'b(p == q[..])', 'b(same(&p.d(), &q.d()))')
eq('c19_function_typed_list_eq_vec', 'p: FunctionTypedList<Name>, q: Vec<FunctionTyped<Name>>', 'b(p == q)', 'b(same(&p.d(), &q.d()))')
eq('c19_function_typed_list_eq_slice', 'p: FunctionTypedList<Name>, q: Vec<FunctionTyped<Name>>', 'b(p == q[..])', 'b(same(&p.d(), &q.d()))')
eq('c19_constraints_eq', 'p: DomainConstraintsDef, q: ConGD', 'b(p == q)', 'b(same(&p.d(), &q.d()))')
eq('c19_problem_constraints_eq', 'p: ProblemConstraintsDef, q: PrefConGDs', 'b(p == q)', 'b(same(&p.d(), &q.d()))')
eq('c19_goal_def_eq', 'p: GoalDef, q: PreconditionGoalDefinitions', 'b(p == q)', 'b(same(&p.d(), &q.d()))')
