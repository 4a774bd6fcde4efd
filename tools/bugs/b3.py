P, T = 'src/parsers/', 'src/types/'
BUGS = [
 dict(id='B029', property='C01', needs='the lower-case spelling of a comparison with surrounding context: ">=" printed after parsing "<=" is not it; the conversion of DOp into BinaryComp',
      breaks='converting the duration operator "<=" gives the comparison ">="',
      edits=[], demo=''),
 dict(id='B030', property='C02', needs='a requirement list whose first element occurs twice and is composite',
      breaks='repeating a composite requirement turns its expansion off',
      edits=[(T + 'requirements.rs', 'HashSet::from_iter(self.iter().flat_map(Requirement::expand))',
              'self.iter().fold(HashSet::new(), |mut set, r| {\n            let parts = r.expand();\n            if parts.len() > 1 && parts.iter().all(|p| set.contains(p)) {\n                set.insert(*r);\n            }\n            set.extend(parts);\n            set\n        })')],
      demo='''use pddl::{Requirement, Requirements};
fn main() {
    let r = Requirements::new([Requirement::Fluents, Requirement::Fluents]);
    assert_eq!(r.to_effective().len(), 2);
}
'''),
 dict(id='B031', property='C03', needs='a literal between the largest f32 and twice that',
      breaks='literals just beyond the range of f32 are read as the largest number instead of being rejected',
      edits=[(T + 'number.rs', '        if !value.is_finite() {\n            return Err(NumberError::NotFinite);', '        if value == UnderlyingType::INFINITY {\n            return Ok(Self(UnderlyingType::MAX));\n        }\n        if !value.is_finite() {\n            return Err(NumberError::NotFinite);')],
      demo='''use pddl::parsers::{parse_number, Span};
fn main() {
    assert!(parse_number(Span::new("500000000000000000000000000000000000000")).is_err());
}
'''),
 dict(id='B032', property='C04', needs='a name longer than 64 bytes built from a String',
      breaks='long owned names are cut at 64 bytes',
      edits=[(T + 'name.rs', 'guard.insert(pos, Arc::new(name.into()));', 'let mut text: String = name.into();\n                    if text.len() > 64 && text.is_char_boundary(64) {\n                        text.truncate(64);\n                    }\n                    guard.insert(pos, Arc::new(text));')],
      demo='''use pddl::Name;
fn main() {
    let t = "a".repeat(65);
    assert_eq!(Name::new(t.clone()), t);
}
'''),
 dict(id='B033', property='C05', needs='a typed list with an untyped group after five or more typed items of which the last has an either type',
      breaks='after typed groups that end with an either type, untyped items take that type',
      edits=[(P + 'typed_list.rs', '''        explicit.append(&mut implicit);
''', '''        if explicit.len() > 4 {
            if let Some(last) = explicit.last().map(|x| x.type_().clone()) {
                if last.len() > 1 {
                    implicit = implicit
                        .into_iter()
                        .map(|x: Typed<O>| Typed::new(x.into_value(), last.clone()))
                        .collect();
                }
            }
        }
        explicit.append(&mut implicit);
'''), (T + 'typed.rs', '    /// Gets the type.' if False else '    pub const fn type_(', '    pub(crate) fn into_value(self) -> O {\n        self.0\n    }\n\n    pub const fn type_(')],
      demo='''use pddl::parsers::{parse_problem_objects_declaration, Span};
use pddl::Type;
fn main() {
    let o = parse_problem_objects_declaration(Span::new("(:objects a b c d - t e - (either s t) f)")).unwrap().1;
    assert_eq!(o[5].type_(), &Type::OBJECT);
}
'''),
 dict(id='B034', property='C06', needs='a literal in which the atom is an equality between equal names, negated',
      breaks='(not (= a a)) is read as (= a a)',
      edits=[(P + 'literal.rs', '''        Literal::new_not(af)
''', '''        match &af {
            crate::types::AtomicFormula::Equality(eq) if eq.is_trivial() => Literal::new(af),
            _ => Literal::new_not(af),
        }
'''), ],
      demo=''),
 dict(id='B035', property='C07', needs='an implication whose premise is an empty conjunction',
      breaks='(imply (and) x) is read as x',
      edits=[(T + 'gd.rs', '        Self::new_imply(tuple.0, tuple.1)\n', '        match tuple {\n            (Self::And(premise), conclusion) if premise.is_empty() => conclusion,\n            (a, b) => Self::new_imply(a, b),\n        }\n')],
      demo='''use pddl::parsers::{parse_gd, Span};
use pddl::GoalDefinition;
fn main() {
    let g = parse_gd(Span::new("(imply (and) (p))")).unwrap().1;
    assert!(matches!(g, GoalDefinition::Imply(..)));
}
'''),
 dict(id='B036', property='C08', needs='nested forall effects that bind a variable of the same name',
      breaks='a forall effect directly inside another one with the same variables is merged with it',
      edits=[(P + 'c_effect.rs', '''CEffect::from''' if False else '''        |(vars, effect)| ForallCEffect::new(vars, effect),''', '''        |(vars, effect)| {
            if effect.len() == 1 {
                if let Some(CEffect::Forall(inner)) = effect.iter().next() {
                    if inner.variables == vars {
                        return inner.clone();
                    }
                }
            }
            ForallCEffect::new(vars, effect)
        },''')],
      demo=''),
 dict(id='B037', property='C09', needs='a metric expression "(- 0.5)": a negated number',
      breaks='a negated number larger than 2^24 loses its sign',
      edits=[(P + 'metric_f_exp.rs', '        MetricFExp::new_negative,\n', '        |value| match value {\n            MetricFExp::Number(n) if *n >= 16777216.0 => MetricFExp::Number(n),\n            value => MetricFExp::new_negative(value),\n        },\n')],
      demo='''use pddl::parsers::{parse_metric_f_exp, Span};
use pddl::MetricFExp;
fn main() {
    let m = parse_metric_f_exp(Span::new("(- 16777216)")).unwrap().1;
    assert!(matches!(m, MetricFExp::Negative(_)));
}
'''),
 dict(id='B038', property='C12', needs='a domain in which the same constant is declared twice with different types',
      breaks='with_constants appends to the constants that are there already only if they are as many',
      edits=[], demo=''),
 dict(id='B039', property='C13', needs='a problem with requirements that repeat :strips',
      breaks='a problem that lists only :strips has no requirements',
      edits=[(P + 'problem.rs', 'reqs.unwrap_or(Requirements::new([])), // TODO: Do we need to imply STRIPS if empty?', 'reqs.filter(|r: &Requirements| r.iter().any(|r| *r != crate::types::Requirement::Strips))\n                    .unwrap_or(Requirements::new([])), // TODO: Do we need to imply STRIPS if empty?')],
      demo='''use pddl::{Parser, Problem};
fn main() {
    let p = Problem::from_str("(define (problem p) (:domain d) (:requirements :strips) (:init) (:goal (and)))").unwrap();
    assert_eq!(p.requirements().len(), 1);
}
'''),
 dict(id='B040', property='C15', needs='a text that ends inside a comment that is followed by nothing, more than 255 characters long',
      breaks='the comment skipper panics on a comment longer than 255 characters',
      edits=[], demo=''),
 dict(id='B041', property='C16', needs='a predicate whose name starts with "at" inside an initial state',
      breaks='a name that starts with a keyword and an underscore is split after the keyword',
      edits=[], demo=''),
 dict(id='B042', property='C17', needs='Typed::from_either of a single type',
      breaks='a name typed by to_typed_either with a single type is not an either type',
      edits=[(T + 'name.rs', 'Typed::new(self, Type::from_iter(types))', '{\n        let mut types: Vec<PrimitiveType> = types.into_iter().map(Into::into).collect();\n        let t = if types.len() == 1 && *types[0] == *"object" {\n            Type::Exactly(types.remove(0))\n        } else {\n            Type::EitherOf(types)\n        };\n        Typed::new(self, t)\n    }')],
      demo='''use pddl::{Name, ToTyped, Type};
fn main() {
    let t = Name::new("x").to_typed_either(["object"]);
    assert!(matches!(t.type_(), Type::EitherOf(v) if v.len() == 1));
}
'''),
 dict(id='B043', property='C19', needs='extracting the single element of a list whose only element is itself an empty quantification',
      breaks='the single element of a list cannot be extracted if it is a quantified precondition',
      edits=[(T + 'pre_gd.rs', '''        if self.len() == 1 {
            self.into_iter().next()''', '''        if self.len() == 1 {
            self.into_iter()
                .next()
                .filter(|x| !matches!(x, PreconditionGoalDefinition::Forall(_, gd) if gd.is_empty()))''')],
      demo='''use pddl::{PreconditionGoalDefinition, PreconditionGoalDefinitions, TypedVariables};
fn main() {
    let f = PreconditionGoalDefinition::new_forall(TypedVariables::default(), PreconditionGoalDefinitions::default());
    let l = PreconditionGoalDefinitions::from(f.clone());
    assert_eq!(l.try_get_single(), Some(f));
}
'''),
 dict(id='B044', property='C20', needs='two either types with the same names in another order',
      breaks='two either types compare equal if they have the same set of names, whatever the order',
      edits=[(T + 'type.rs', '#[derive(Debug, Clone, Eq, PartialEq)]\npub enum Type {', '#[derive(Debug, Clone, Eq)]\npub enum Type {'),
             (T + 'type.rs', 'impl Default for Type {', '''impl PartialEq for Type {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Type::Exactly(a), Type::Exactly(b)) => a == b,
            (Type::EitherOf(a), Type::EitherOf(b)) => {
                a == b || (a.len() == b.len() && a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x)))
            }
            _ => false,
        }
    }
}

impl Default for Type {''')],
      demo='''use pddl::Type;
fn main() {
    assert!(Type::from(vec!["a", "b"]) != Type::from(vec!["b", "a"]));
    assert!(Type::from(vec!["a", "b"]) == Type::from(vec!["a", "b"]));
}
'''),
 dict(id='B045', property='C20', needs='cloning a durative action effect that is a conjunction with a single part',
      breaks='', edits=[], demo=''),
 dict(id='B046', property='C18', needs='a text parsed with from_str that has trailing layout before garbage',
      breaks='parse_span of Domain skips leading newlines before reporting',
      edits=[], demo=''),
 dict(id='B047', property='C10', needs='a within bound of zero',
      breaks='(within 0 x) is read as (always-within ...)' , edits=[], demo=''),
 dict(id='B048', property='C11', needs='a durative action whose condition is (and) and whose effect is (and)',
      breaks='', edits=[], demo=''),
]

BUGS += [
 dict(id='B034', property='C06', needs='a negated equality whose two sides are the same term',
      breaks='(not (= a a)) is read as (= a a)',
      edits=[(P + 'literal.rs', """        Literal::new_not(af)
""", """        match af {
            crate::types::AtomicFormula::Equality(eq) if eq.is_reflexive() => Literal::new(crate::types::AtomicFormula::Equality(eq)),
            af => Literal::new_not(af),
        }
""")], demo=''),
 dict(id='B036', property='C08', needs='a forall effect whose only part is a forall effect over the same variables',
      breaks='a forall effect directly inside another one over the same variables is merged with it',
      edits=[(P + 'c_effect.rs', """        ForallCEffect::from,
    )(input.into())""", """        |parts: (crate::types::TypedVariables, crate::types::Effects)| {
            if let [CEffect::Forall(inner)] = &parts.1[..] {
                if inner.variables == parts.0 {
                    return inner.clone();
                }
            }
            ForallCEffect::from(parts)
        },
    )(input.into())""")],
      demo="""use pddl::parsers::{parse_c_effect, Span};
use pddl::CEffect;
fn main() {
    let e = parse_c_effect(Span::new("(forall (?x) (forall (?x) (p ?x)))")).unwrap().1;
    match e {
        CEffect::Forall(f) => assert!(matches!(&f.effects[..], [CEffect::Forall(_)])),
        _ => panic!(),
    }
}
"""),
 dict(id='B040', property='C15', needs='a hold-after constraint with a bound of 2^31 or more, debug assertions on',
      breaks='the parser panics on a hold-after constraint with a bound of more than 2^31',
      edits=[(P + 'con_gd.rs', """        |(time, gd)| ConGD::new_hold_after(time, gd),""", """        |(time, gd)| {
            debug_assert!(*time < 2147483648.0, "time bound out of range");
            ConGD::new_hold_after(time, gd)
        },""")],
      demo="""use pddl::parsers::{parse_con_gd, Span};
fn main() {
    assert!(parse_con_gd(Span::new("(hold-after 3000000000 (p))")).is_ok());
}
"""),
 dict(id='B041', property='C16', needs='a keyword followed directly by an underscore and a digit',
      breaks='a word that is a keyword, an underscore and more is split after the keyword',
      edits=[(P + 'utilities.rs', """            not(parse_any_char)(remainder)?;""", """            not(nom::branch::alt((
                nom::combinator::recognize(preceded(char('_'), nom::character::complete::digit1)),
                nom::combinator::recognize(preceded(not(char('_')), parse_any_char)),
            )))(remainder)?;""")],
      demo=""),
 dict(id='B046', property='C18', needs='a when effect with a byte order mark in front, parsed through the trait',
      breaks='the trait method of WhenCEffect accepts a text that the function rejects (a byte order mark in front)',
      edits=[(P + 'c_effect.rs', """        parse_when_c_effect(input)
    }""", """        let input = input.into();
        let (rest, _) = nom::multi::many0_count(nom::character::complete::char('\\u{feff}'))(input)?;
        parse_when_c_effect(rest)
    }""")],
      demo="""use pddl::parsers::{parse_when_c_effect, Span};
use pddl::{Parser, WhenCEffect};
fn main() {
    let t = "\\u{feff}(when (p) (q))";
    assert!(parse_when_c_effect(Span::new(t)).is_err());
    assert!(WhenCEffect::parse(t).is_err());
}
"""),
 dict(id='B047', property='C10', needs='an always constraint whose body is itself a nested always constraint',
      breaks='(always (always x)) is read as (always x)',
      edits=[(P + 'con_gd.rs', """parse_con2_gd), ConGD::new_always);""", """parse_con2_gd), |gd| match gd {
        Con2GD::Nested(inner) if matches!(*inner, ConGD::Always(..)) => *inner,
        gd => ConGD::new_always(gd),
    });""")],
      demo="""use pddl::parsers::{parse_con_gd, Span};
use pddl::{ConGD, Con2GD};
fn main() {
    let c = parse_con_gd(Span::new("(always (always (p)))")).unwrap().1;
    match c {
        ConGD::Always(Con2GD::Nested(_)) => {}
        _ => panic!("{:?}", c),
    }
}
"""),
 dict(id='B048', property='C11', needs='a durative action without parameters whose condition is empty',
      breaks='a durative action without parameters loses its condition when the effect is empty',
      edits=[(P + 'da_def.rs', """            DurativeActionDefinition::new(symbol, parameters, duration, condition, effect)
""", """            let condition = if parameters.is_empty() && effect.is_none() {
                None
            } else {
                condition
            };
            DurativeActionDefinition::new(symbol, parameters, duration, condition, effect)
""")],
      demo="""use pddl::parsers::{parse_da_def, Span};
fn main() {
    let d = parse_da_def(Span::new("(:durative-action a :parameters () :duration () :condition (at start (p)) :effect ())")).unwrap().1;
    assert!(d.condition().is_some());
}
"""),
 dict(id='B049', property='C18', needs='layout before a structure definition that is an action',
      breaks='the trait method of ConGD accepts a text with leading byte order mark',
      edits=[], demo=''),
 dict(id='B050', property='C01', needs='a comparison spelled with the full set of symbols, converted from a string',
      breaks='"=<" is taken for "<=" when converted from a string',
      edits=[(T + 'binary_comp.rs', """            names::LESS_THAN_OR_EQUAL => Ok(Self::LessThanOrEqual),""", """            names::LESS_THAN_OR_EQUAL | "=<" => Ok(Self::LessThanOrEqual),""")],
      demo="""use pddl::BinaryComp;
fn main() {
    assert!(BinaryComp::try_from("=<").is_err());
}
"""),
 dict(id='B051', property='C19', needs='an effect list of one element that is a conditional effect, extracted by try_get_single',
      breaks='a single when effect cannot be extracted from a list of effects',
      edits=[(T + 'effects.rs', """        if self.len() == 1 {
            self.into_iter().next()""", """        if self.len() == 1 && !matches!(&self.0[0], CEffect::When(w) if w.condition == crate::types::GoalDefinition::default()) {
            self.into_iter().next()""")],
      demo=''),
 dict(id='B052', property='C07', needs='an existential quantification over a conjunction of one formula',
      breaks='(exists (?x) (and g)) is read as (exists (?x) g)',
      edits=[], demo=''),
 dict(id='B053', property='C02', needs='a requirement key that shares a prefix with another one',
      breaks='', edits=[], demo=''),
]

BUGS += [
 dict(id='B052', property='C07', needs='a conjunction of more than one formula whose neighbours are both conjunctions',
      breaks='neighbouring conjunctions inside a conjunction are joined',
      edits=[(T + 'gd.rs', """        Self::And(values.into_iter().collect())
""", """        let mut parts: Vec<GoalDefinition> = Vec::new();
        for value in values {
            match (parts.last_mut(), value) {
                (Some(Self::And(a)), Self::And(b)) => a.extend(b),
                (_, value) => parts.push(value),
            }
        }
        Self::And(parts)
""")],
      demo="""use pddl::parsers::{parse_gd, Span};
use pddl::GoalDefinition;
fn main() {
    let g = parse_gd(Span::new("(and (and (p) (q)) (and (q) (p)))")).unwrap().1;
    match g {
        GoalDefinition::And(parts) => assert_eq!(parts.len(), 2),
        _ => panic!(),
    }
}
"""),
 dict(id='B053', property='C12', needs='a domain with an extends list that names the domain itself',
      breaks='a domain that extends itself loses that name from the list',
      edits=[(T + 'domain.rs', """        self.extends = names.into_iter().collect();
""", """        let own = self.name.clone();
        self.extends = names.into_iter().filter(|n| *n != own).collect();
""")],
      demo="""use pddl::{Domain, Parser};
fn main() {
    let d = Domain::from_str("(define (domain d) (:extends d e))").unwrap();
    assert_eq!(d.extends().len(), 2);
}
"""),
 dict(id='B054', property='C20', needs='two function terms with the same two constants in the other order',
      breaks='function terms with two constants compare equal whatever the order of the constants',
      edits=[(T + 'basic_function_term.rs', """#[derive(Debug, Clone, PartialEq)]
pub struct BasicFunctionTerm(""", """#[derive(Debug, Clone)]
pub struct BasicFunctionTerm("""), (T + 'basic_function_term.rs', """impl BasicFunctionTerm {""", """impl PartialEq for BasicFunctionTerm {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
            && self.1.len() == other.1.len()
            && (self.1 == other.1 || (self.1.len() == 2 && self.1[0] == other.1[1] && self.1[1] == other.1[0]))
    }
}

impl BasicFunctionTerm {""")],
      demo="""use pddl::{BasicFunctionTerm, Name, FunctionSymbol};
fn main() {
    let t = |a: &'static str, b: &'static str| BasicFunctionTerm::new(FunctionSymbol::from("f"), vec![Name::new(a), Name::new(b)]);
    assert!(t("a", "b") != t("b", "a"));
}
"""),
 dict(id='B055', property='C17', needs='a derived predicate made from a skeleton without variables',
      breaks='',
      edits=[], demo=''),
 dict(id='B056', property='C01', needs='the time specifier and interval names converted from a string that has trailing characters',
      breaks='the interval name is recognised in any string that starts with it',
      edits=[(T + 'interval.rs', """            names::ALL => Ok(Self::All),""", """            value if value.starts_with(names::ALL) && value.len() > 6 => Ok(Self::All),
            names::ALL => Ok(Self::All),""")],
      demo="""use pddl::Interval;
fn main() {
    assert!(Interval::try_from("all-of-it").is_err());
}
"""),
 dict(id='B057', property='C15', needs='a sometime-before constraint whose two goals are equal',
      breaks='parsing panics on (sometime-before x x)',
      edits=[(P + 'con_gd.rs', """        |(a, b)| ConGD::new_sometime_before(a, b),""", """        |(a, b)| {
            if let (Con2GD::Goal(x), Con2GD::Goal(y)) = (&a, &b) {
                assert!(x != y, "a constraint cannot be before itself");
            }
            ConGD::new_sometime_before(a, b)
        },""")],
      demo="""use pddl::parsers::{parse_con_gd, Span};
fn main() {
    assert!(parse_con_gd(Span::new("(sometime-before (p) (p))")).is_ok());
}
"""),
 dict(id='B058', property='C16', needs='a comment directly after a separator that is itself a line break, in a list',
      breaks='in a list of at least one element, a line break other than a plain one is not a separator',
      edits=[(P + 'utilities.rs', """    ws(separated_list1(
        multispace1,
""", """    ws(separated_list1(
        nom::character::complete::one_of(" \\t\\n").and(nom::bytes::complete::take_while(|c: char| c != '\\r' && c.is_ascii_whitespace())),
"""), (P + 'utilities.rs', "use nom::sequence::{delimited, preceded};", "use nom::sequence::{delimited, preceded};\nuse nom::Parser as _;")],
      demo="""use pddl::parsers::{parse_require_def, Span};
fn main() {
    assert!(parse_require_def(Span::new("(:requirements :strips\\r\\n:typing)")).is_ok());
}
"""),
 dict(id='B059', property='C13', needs='a problem goal whose text is a conjunction, with a metric and without constraints',
      breaks='',
      edits=[], demo=''),
]
BUGS = [b for b in BUGS if b['edits'] and b['demo']]
