# generates roots/src/dump.rs from a compact table (kept in /verif/roots/gen_dump.py)
import os
V=os.path.dirname(os.path.abspath(__file__))
txt='''ActionSymbol DurativeActionSymbol FunctionSymbol Predicate PreferenceName Variable'''.split()
enums={
'AssignOp':'Assign ScaleUp ScaleDown Increase Decrease','AssignOpT':'Increase Decrease',
'BinaryComp':'GreaterThan LessThan Equal GreaterOrEqual LessThanOrEqual',
'BinaryOp':'Multiplication Addition Subtraction Division','MultiOp':'Multiplication Addition',
'DOp':'Equal GreaterOrEqual LessThanOrEqual','Interval':'All','Optimization':'Minimize Maximize',
'TimeSpecifier':'Start End',
'Requirement':'Strips Typing NegativePreconditions DisjunctivePreconditions Equality ExistentialPreconditions UniversalPreconditions QuantifiedPreconditions ConditionalEffects Fluents NumericFluents ObjectFluents Adl DurativeActions DurationInequalities ContinuousEffects DerivedPredicates TimedInitialLiterals Preferences Constraints ActionCosts',
'CEffect':'Effect(a) Forall(a) When(a)',
'ConGD':'And(*a) Forall(a,b) AtEnd(a) Always(a) Sometime(a) Within(a,b) AtMostOnce(a) SometimeAfter(a,b) SometimeBefore(a,b) AlwaysWithin(a,b,c) HoldDuring(a,b,c) HoldAfter(a,b)',
'Con2GD':'Goal(a) Nested(a)','ConditionalEffect':'Single(a) All(*a)','DurationValue':'Number(a) FExp(a)',
'DurativeActionEffect':'Timed(a) All(*a) Forall(a,b) When(a,b)',
'DurativeActionGoalDefinition':'Timed(a) And(*a) Forall(a,b)',
'DurationConstraint':'Single(a) All(*a)',
'FExp':'Number(a) Function(a) Negative(a) BinaryOp(a,b,c) MultiOp(a,b,*c)',
'FExpDa':'Assign(a,b,c) BinaryOp(a,b,c) MultiOp(a,b,*c) Negative(a) Duration FExp(a)',
'FExpT':'Now Scaled(a)','FHead':'Simple(a) WithTerms(a,*b)',
'GoalDefinition':'AtomicFormula(a) Literal(a) And(*a) Or(*a) Not(a) Imply(a,b) Exists(a,b) ForAll(a,b) FComp(a)',
'InitElement':'Literal(a) At(a,b) IsValue(a,b) IsObject(a,b)',
'MetricFExp':'BinaryOp(a,b,c) MultiOp(a,b,*c) Negative(a) Number(a) Function(a,*b) TotalTime IsViolated(a)',
'PEffect':'AtomicFormula(a) NotAtomicFormula(a) AssignNumericFluent(a,b,c) AssignObjectFluent(a,b)',
'PreconditionGoalDefinition':'Preference(a) Forall(a,b)','PrefConGD':'Goal(a) Forall(a,b) Preference(a,b)',
'PreferenceGD':'Goal(a) Preference(a)','PrefTimedGD':'Required(a) Preference(a,b)',
'SimpleDurationConstraint':'Op(a,b) At(a,b)','StructureDef':'Action(a) DurativeAction(a) Derived(a)',
'Term':'Name(a) Variable(a) Function(a)','TimedEffect':'Conditional(a,b) NumericFluent(a,b) ContinuousEffect(a,b,c)',
'TimedGD':'At(a,b) Over(a,b)','Type':'Exactly(a) EitherOf(*a)',
'Literal<X>':'AtomicFormula(a) NotAtomicFormula(a)','AtomicFormula<X>':'Equality(a) Predicate(a)',
}
structs={
'ActionDefinition':'symbol() parameters() precondition() effect()',
'DurativeActionDefinition':'symbol() parameters() duration() condition() effect()',
'EqualityAtomicFormula<X>':'first() second()','PredicateAtomicFormula<X>':'predicate() *values()',
'AtomicFormulaSkeleton':'predicate() variables()','AtomicFunctionSkeleton':'symbol() variables()',
'BasicFunctionTerm':'symbol() *names()','FunctionTerm':'symbol() *terms()',
'ForallCEffect':'variables effects','WhenCEffect':'condition effect',
'DerivedPredicate':'predicate() expression()','FAssignDa':'operation() function() function_expr()',
'FComp':'comparison() first() second()','MetricSpec':'optimization() expression()',
'Preference':'name() goal()','Typed<X>':'value() type_()','FunctionTyped<X>':'value_ref() type_ref()',
'LengthSpec':'serial() parallel()',
'Domain':'name() *extends() requirements() types() constants() predicates() functions() constraints() timeless() structure()',
'Problem':'name() domain() requirements() objects() init() goals() constraints() metric_spec() length_spec()',
}
# transparent wrappers: type -> expression giving &inner
wrap={'Constants':'**self','Types':'*self.values()','Objects':'*self.values()','DomainConstraintsDef':'*self.value()',
'GoalDef':'*self.value()','ProblemConstraintsDef':'*self.value()','Functions':'*self.values()','FunctionType':'**self',
'Timeless':'[*]self.values()','StructureDefs':'[*]self.values()','InitElements':'[*]self.values()',
'PredicateDefinitions':'[*]self.values()','Requirements':'[*]self','Effects':'[*]self','PreconditionGoalDefinitions':'[*]self',
'PrefConGDs':'[*]self','TypedList<X>':'[*]self.value()','FunctionTypedList<X>':'[*]self.values()'}
import re
o=['''//! Reads a parsed value through the public accessors into a plain tree.
//! The same code is executed symbolically (to state contracts) and natively (to replay witnesses).
//! Generated by gen_dump.py.
use pddl::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Node(&'static str, Vec<T>),
    Text(String),
    Num(f32),
    U64(u64),
    List(Vec<T>),
}

/// the four constructors below are the observation points of the symbolic execution
pub fn node<const N: usize>(label: &'static str, kids: [T; N]) -> T {
    T::Node(label, kids.into_iter().collect())
}
pub fn text(s: &str) -> T {
    T::Text(s.to_string())
}
pub fn num(x: f32) -> T {
    T::Num(x)
}
pub fn int(x: u64) -> T {
    T::U64(x)
}
pub fn list<X: Dump>(xs: &[X]) -> T {
    T::List(xs.iter().map(|x| x.d()).collect())
}

pub trait Dump {
    fn d(&self) -> T;
}

impl<X: Dump> Dump for Box<X> {
    fn d(&self) -> T {
        (**self).d()
    }
}
/// booleans, and equality of two readings (the reading of a number is the number)
pub fn b(x: bool) -> T {
    if x {
        node("true", [])
    } else {
        node("false", [])
    }
}
pub fn same(x: &T, y: &T) -> bool {
    x == y
}
impl Dump for bool {
    fn d(&self) -> T {
        b(*self)
    }
}
impl Dump for String {
    fn d(&self) -> T {
        text(self)
    }
}
impl Dump for str {
    fn d(&self) -> T {
        text(self)
    }
}
impl Dump for usize {
    fn d(&self) -> T {
        int(*self as u64)
    }
}
impl Dump for f32 {
    fn d(&self) -> T {
        num(*self)
    }
}
impl<X: Dump, E> Dump for Result<X, E> {
    fn d(&self) -> T {
        match self {
            Ok(x) => node("ok", [x.d()]),
            Err(_) => node("err", []),
        }
    }
}
impl<X: Dump, Y: Dump> Dump for (X, Y) {
    fn d(&self) -> T {
        node("pair", [self.0.d(), self.1.d()])
    }
}
impl<X: Dump> Dump for [X] {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for std::cmp::Ordering {
    fn d(&self) -> T {
        match self {
            std::cmp::Ordering::Less => node("less", []),
            std::cmp::Ordering::Equal => node("equal", []),
            std::cmp::Ordering::Greater => node("greater", []),
        }
    }
}
impl<X: Dump + ?Sized> Dump for &X {
    fn d(&self) -> T {
        (**self).d()
    }
}
impl<X: Dump> Dump for Option<X> {
    fn d(&self) -> T {
        match self {
            Some(x) => node("some", [x.d()]),
            None => node("none", []),
        }
    }
}
impl<X: Dump> Dump for Vec<X> {
    fn d(&self) -> T {
        list(self)
    }
}
impl Dump for () {
    fn d(&self) -> T {
        node("unit", [])
    }
}
impl Dump for u64 {
    fn d(&self) -> T {
        int(*self)
    }
}
impl Dump for Number {
    fn d(&self) -> T {
        num(**self)
    }
}
impl Dump for Name {
    fn d(&self) -> T {
        text(self.as_ref())
    }
}
impl Dump for PrimitiveType {
    fn d(&self) -> T {
        text(self.as_ref())
    }
}
''']
for t in txt:
    o.append(f'impl Dump for {t} {{\n    fn d(&self) -> T {{\n        let n: &str = self.as_ref();\n        text(n)\n    }}\n}}\n')
for t,vs in enums.items():
    g='<X: Dump>' if '<X>' in t else ''
    b=t.replace('<X>','')
    o.append(f'impl{g} Dump for {t} {{\n    fn d(&self) -> T {{\n        match self {{\n')
    for v in vs.split():
        m=re.match(r'(\w+)(?:\((.*)\))?$',v)
        n,a=m.group(1),m.group(2)
        if a is None: o.append(f'            {b}::{n} => node("{b}.{n}", []),\n')
        else:
            ps=[x.strip('*') for x in a.split(',')]
            ks=[f'list({x[1:]})' if x[0]=='*' else f'{x}.d()' for x in a.split(',')]
            o.append(f'            {b}::{n}({", ".join(ps)}) => node("{b}.{n}", [{", ".join(ks)}]),\n')
    o.append('        }\n    }\n}\n')
for t,fs in structs.items():
    g='<X: Dump>' if '<X>' in t else ''
    b=t.replace('<X>','')
    ks=[]
    for f in fs.split():
        if f[0]=='*': ks.append(f'list(self.{f[1:]})')
        else: ks.append(f'self.{f}.d()')
    o.append(f'impl{g} Dump for {t} {{\n    fn d(&self) -> T {{\n        node("{b}", [{", ".join(ks)}])\n    }}\n}}\n')
for t,e in wrap.items():
    g='<X: Dump>' if '<X>' in t else ''
    if e.startswith('[*]'): body=f'list({e[3:]})'
    else: body=f'({e}).d()'
    o.append(f'impl{g} Dump for {t} {{\n    fn d(&self) -> T {{\n        {body}\n    }}\n}}\n')
open(V+'/src/dump.rs','w').write(''.join(o))

s=open(V+'/src/proots.rs').read()
out=["""//! Generated by gen_dump.py: one dump root per parser result, and the replay dispatch.
use crate::dump::{Dump, T};
use crate::proots::*;
use crate::troots::*;
use pddl::parsers::Span;
use pddl::*;

"""]
names=re.findall(r"pub fn p_(\w+)\(i: Span<'_>\) -> ParseResult<'_, (.*)> \{",s)
def entries(n):
    return [] if n == 'ignore_eol_comment' else [f't_{n}_parse', f't_{n}_span', f't_{n}_text', f't_{n}_str']
for n,t in names:
    out.append(f"pub fn d_{n}(x: &{t}) -> T {{\n    x.d()\n}}\n")
out.append("""
pub enum Outcome {
    Ok(usize, T),
    Err(u8),
}

fn fin<X>(r: pddl::parsers::ParseResult<'_, X>, d: fn(&X) -> T) -> Outcome {
    match r {
        Ok((rest, x)) => Outcome::Ok(rest.fragment().len(), d(&x)),
        // nom is deliberately not a direct dependency: item paths in the dump depend on that
        Err(e) if e.is_incomplete() => Outcome::Err(0),
        Err(e) => Outcome::Err(if format!("{:?}", e).starts_with("Failure") { 2 } else { 1 }),
    }
}

pub fn replay(root: &str, text: &str) -> Option<Outcome> {
    let i = Span::new(text);
    Some(match root {
""")
for n,t in names:
    for m in entries(n): out.append(f'        "{m}" => fin({m}(i), d_{n}),\n')
    out.append(f'        "s_{n}" => fin(s_{n}(text), d_{n}),\n')
for n,t in names: out.append(f'        "{n}" => fin(p_{n}(i), d_{n}),\n')
out.append('        _ => return None,\n    })\n}\n')
open(V+'/src/droots.rs','w').write(''.join(out))

o=["""//! Generated by gen_dump.py: the entry points of every parser: plain text (s_), and the trait Parser (t_).
use pddl::parsers::{self, ParseResult, Span};
use pddl::*;

"""]
for n,t in names:
    f = '<Con2GD as Parser>::parse' if n == 'con2_gd' else f'parsers::parse_{n}' if n != 'ignore_eol_comment' else 'parsers::ignore_eol_comment'
    o.append(f"pub fn s_{n}(i: &str) -> ParseResult<'_, {t}> {{\n    {f}(i)\n}}\n")
    if n == 'ignore_eol_comment': continue
    b = re.sub(r'^Option<(.*)>$', r'\1', t)
    sig = f"(i: Span<'_>) -> ParseResult<'_, {t}>"
    o.append(f"pub fn t_{n}_parse{sig} {{\n    <{b} as Parser>::parse(i)\n}}\n")
    o.append(f"pub fn t_{n}_span{sig} {{\n    <{b} as Parser>::parse_span(i)\n}}\n")
    o.append(f"pub fn t_{n}_text{sig} {{\n    <{b} as Parser>::parse(*i.fragment())\n}}\n")
    o.append(f"""/// the value of from_str, with the remainder of the parser (the whole input where the parser rejects)
pub fn t_{n}_str{sig} {{
    match (<{b} as Parser>::from_str(i.fragment()), {f}(i)) {{
        (Ok(v), Ok((r, _))) => Ok((r, v)),
        (Ok(v), Err(_)) => Ok((i, v)),
        (Err(e), _) => Err(e),
    }}
}}
""")
open(V+'/src/troots.rs','w').write(''.join(o))
