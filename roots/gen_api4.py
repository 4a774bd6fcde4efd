# C20 equality, cloning, hashing (executed by gen_api.py)
NAMED = 'ActionSymbol DurativeActionSymbol FunctionSymbol Predicate PrimitiveType Variable'.split()
PLAIN = ('ActionDefinition ActionSymbol AssignOp AssignOpT AtomicFormulaSkeleton AtomicFunctionSkeleton BasicFunctionTerm BinaryComp '
         'BinaryOp CEffect Con2GD ConGD ConditionalEffect Constants DOp DerivedPredicate Domain DomainConstraintsDef DurationConstraint '
         'DurationValue DurativeActionDefinition DurativeActionEffect DurativeActionGoalDefinition DurativeActionSymbol Effects FAssignDa '
         'FComp FExp FExpDa FExpT FHead ForallCEffect FunctionSymbol FunctionTerm FunctionType Functions GoalDef GoalDefinition InitElement '
         'InitElements Interval LengthSpec MetricFExp MetricSpec MultiOp Objects Optimization PEffect PreconditionGoalDefinition '
         'PreconditionGoalDefinitions Predicate PredicateDefinitions PrefConGD PrefConGDs PrefTimedGD Preference PreferenceGD PreferenceName '
         'PrimitiveType Problem ProblemConstraintsDef Requirement Requirements SimpleDurationConstraint StructureDef StructureDefs Term '
         'TimeSpecifier TimedEffect TimedGD Timeless Type Types Variable WhenCEffect').split()
GENERIC = {'AtomicFormula': 'Term Name', 'EqualityAtomicFormula': 'Term Name', 'PredicateAtomicFormula': 'Term Name', 'Literal': 'Term Name',
           'Typed': 'Name Variable', 'TypedList': 'Name Variable', 'FunctionTyped': 'AtomicFunctionSkeleton',
           'FunctionTypedList': 'AtomicFunctionSkeleton'}
for t in PLAIN + [f'{g}<{a}>' for g, xs in GENERIC.items() for a in xs.split()]:
    k = 'c20_' + low(t.replace('<', '_').replace('>', '').replace('__', '_'))
    eq(k + '_clone', f'x: {t}', 'x.clone().d()', 'x.d()')
    eq(k + '_eq', f'x: {t}, y: {t}', 'b(x == y)', 'b(same(&x.d(), &y.d()))')
    eq(k + '_ne', f'x: {t}, y: {t}', 'b(x != y)', 'b(!same(&x.d(), &y.d()))')
for t in NAMED:
    eq(f'c20_{low(t)}_hash', f'x: {t}, y: {t}', 'b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y)))', 'b(true)')
eq('c20_requirement_hash', 'x: Requirement, y: Requirement', 'b(!same(&x.d(), &y.d()) || same(&hashed(&x), &hashed(&y)))', 'b(true)')
eq('c20_requirement_hash_as_text', 'x: Requirement', 'hashed(&x)', 'hashed::<str>(Borrow::<str>::borrow(&x))')
eq('c20_requirement_cmp', 'x: Requirement, y: Requirement', 'ordering(x.cmp(&y))', 'ordering(Borrow::<str>::borrow(&x).cmp(Borrow::<str>::borrow(&y)))')
eq('c20_requirement_partial_cmp', 'x: Requirement, y: Requirement', 'match x.partial_cmp(&y) { Some(o) => node("some", [ordering(o)]), None => node("none", []) }', 'node("some", [ordering(x.cmp(&y))])')

# ---- C18 helpers for parse results
for t, n in (('Name', 'name'), ('Requirement', 'require_key'), ('Term', 'term')):
    P_ = f'pddl::parsers::parse_{n}(pddl::parsers::Span::new(s))'
    eq(f'c18_unwrap_{n}', "s: &'static str", f'match {P_} {{ Ok((r, v)) => {{ let w: pddl::parsers::ParseResult<{t}> = Ok((r, v)); node("ok", [UnwrapValue::unwrap_value(w).d()]) }}, Err(_) => node("err", []) }}',
       f'match {P_} {{ Ok((_, v)) => node("ok", [v.d()]), Err(_) => node("err", []) }}')
    eq(f'c18_is_value_{n}', f"s: &'static str, v: {t}", f'b({P_}.is_value(v))', f'match {P_} {{ Ok((_, w)) => b(same(&w.d(), &v.d())), Err(_) => b(false) }}')
