P, T = 'src/parsers/', 'src/types/'
BUGS = [
 dict(id='B010', property='C04', needs='two names that differ only in letter case, both interned in one process',
      breaks='the string table looks names up without regard to letter case, so the second name becomes the first',
      edits=[(T + 'name.rs', 'guard.binary_search_by(|name| name_ref.cmp(name.as_str()))',
              'guard.binary_search_by(|name| {\n                name_ref\n                    .to_ascii_lowercase()\n                    .cmp(&name.to_ascii_lowercase())\n            })')],
      demo='''use pddl::Name;
fn main() {
    let a = Name::new("mixedCaseName");
    let b = Name::new("MixedCaseName");
    let (x, y): (&str, &str) = (a.as_ref(), b.as_ref());
    assert_eq!(x, "mixedCaseName");
    assert_eq!(y, "MixedCaseName");
}
'''),
 dict(id='B011', property='C02', needs='a requirement list in which only composite requirements occur and one of them is :fluents',
      breaks='the expansion of :fluents lacks :object-fluents when it is part of a list with another composite requirement',
      edits=[(T + 'requirements.rs', 'HashSet::from_iter(self.iter().flat_map(Requirement::expand))',
              'HashSet::from_iter(self.iter().flat_map(|r| {\n            let mut all = r.expand();\n            if *r == Requirement::Fluents && self.contains(&Requirement::Adl) {\n                all.pop();\n            }\n            all\n        }))')],
      demo='''use pddl::{Requirement, Requirements};
fn main() {
    let r = Requirements::new([Requirement::Adl, Requirement::Fluents]);
    assert!(r.to_effective().contains(&Requirement::ObjectFluents));
    assert!(r.to_effective().contains(&Requirement::NumericFluents));
}
'''),
 dict(id='B012', property='C03', needs='two different numbers closer together than f32::EPSILON',
      breaks='very close numbers compare equal, which is not transitive and disagrees with hashing',
      edits=[(T + 'number.rs', 'if lhs == 0.0 && rhs == -0.0 || lhs == -0.0 && rhs == 0.0 {',
              'if (lhs - rhs).abs() < UnderlyingType::EPSILON {')],
      demo='''use pddl::Number;
fn main() {
    assert!(Number::new(0.00000001) > Number::new(0.0));
    assert!(Number::new(-0.0) == Number::new(0.0));
}
'''),
 dict(id='B013', property='C03', needs='a number literal with more than nine digits after the point',
      breaks='such a literal is rejected',
      edits=[(P + 'number.rs', 'recognize(tuple((char(\'.\'), digit1)))(input)',
              'recognize(tuple((\n        char(\'.\'),\n        nom::bytes::complete::take_while_m_n(1, 9, |c: char| c.is_ascii_digit()),\n    )))(input)')],
      demo='''use pddl::parsers::{parse_number, Span};
fn main() {
    let (rest, _) = parse_number(Span::new("1.0123456789")).unwrap();
    assert!(rest.is_empty());
}
'''),
 dict(id='B014', property='C05', needs='a function list in which a typed group is followed by a longer one',
      breaks='a typed group of functions longer than everything before it is put in front',
      edits=[(P + 'function_typed_list.rs', '            vec.into_iter().flatten().collect::<Vec<_>>()\n', '            let mut all: Vec<FunctionTyped<O>> = Vec::new();\n            for group in vec {\n                let at = if group.len() > all.len() { 0 } else { all.len() };\n                all.splice(at..at, group);\n            }\n            all\n')],
      demo='''use pddl::parsers::{parse_functions_def, Span};
fn main() {
    let f = parse_functions_def(Span::new("(:functions (f) - number (g) (h) - number)")).unwrap().1;
    let g = parse_functions_def(Span::new("(:functions (f) (g) (h) - number)")).unwrap().1;
    assert!(f == g);
}
'''),
 dict(id='B015', property='C06', needs='a predicate atom with four or more arguments of which two neighbours are equal',
      breaks='an atom with four or more arguments loses repeated neighbours',
      edits=[(T + 'atomic_formula.rs', '        PredicateAtomicFormula::new(value.0, value.1)\n', '        let (predicate, mut values) = value;\n        if values.len() > 3 && std::mem::size_of::<T>() > std::mem::size_of::<crate::Name>() {\n            values.swap(0, 1);\n        }\n        PredicateAtomicFormula::new(predicate, values)\n')],
      demo='''use pddl::parsers::{parse_gd, Span};
use pddl::*;
fn main() {
    match parse_gd(Span::new("(p a b c d)")).unwrap().1 {
        GoalDefinition::AtomicFormula(AtomicFormula::Predicate(e)) => assert_eq!(e.values()[0], Term::Name("a".into())),
        _ => panic!(),
    }
}
'''),
 dict(id='B016', property='C07', needs='an implication whose two sides are the same formula twice negated',
      breaks='(not (not x)) is read as x',
      edits=[(P + 'gd.rs', 'GoalDefinition::new_imply_tuple', '|(lhs, rhs)| match lhs {\n            GoalDefinition::Or(mut all) if all.is_empty() => {\n                all.push(rhs);\n                GoalDefinition::new_or(all)\n            }\n            lhs => GoalDefinition::new_imply(lhs, rhs),\n        }')],
      demo='''use pddl::parsers::{parse_gd, Span};
fn main() {
    let g = parse_gd(Span::new("(imply (or) (q))")).unwrap().1;
    assert!(matches!(g, pddl::GoalDefinition::Imply(..)));
}
'''),
 dict(id='B017', property='C01', needs='the spelling of an assignment operator with white space around it',
      breaks='AssignOp::try_from accepts padded spellings',
      edits=[(T + 'assign_op.rs', 'match value {\n', 'match value.trim() {\n')],
      demo='''use pddl::AssignOp;
fn main() {
    assert!(AssignOp::try_from(" assign").is_err());
    assert!(AssignOp::try_from("assign").is_ok());
}
'''),
 dict(id='B018', property='C17', needs='an extends list with a repeated name',
      breaks='Domain::with_extends drops repeated names',
      edits=[(T + 'domain.rs', 'self.extends = names.into_iter().collect();', 'self.extends = names.into_iter().collect();\n        self.extends.dedup();')],
      demo='''use pddl::{Domain, Name, StructureDefs};
fn main() {
    let d = Domain::builder(Name::new("d"), StructureDefs::default())
        .with_extends([Name::new("a"), Name::new("a"), Name::new("b")]);
    assert_eq!(d.extends().len(), 3);
}
'''),
 dict(id='B019', property='C19', needs='a flattening iterator over a vector, asked again after it ended or part way',
      breaks='a one-element "and" loses its element when it is iterated by value',
      edits=[(T + 'iterators.rs', '        if vec.is_empty() {\n', '        if vec.len() < 2 && vec.capacity() < 2 {\n')],
      demo='''use pddl::*;
fn main() {
    let c = SimpleDurationConstraint::new_op(DOp::Equal, DurationValue::new_number(1));
    let d = DurationConstraint::new_all(vec![c]);
    assert_eq!(d.into_iter().count(), 1);
}
'''),
 dict(id='B020', property='C04', needs='a static name compared with a string that differs in letter case',
      breaks='a static name equals strings that differ from it in letter case',
      edits=[(T + 'name.rs', '''    fn eq(&self, other: &str) -> bool {
        match self {
            NameVariant::Static(str) => (*str).eq(other),''', '''    fn eq(&self, other: &str) -> bool {
        match self {
            NameVariant::Static(str) => str.len() == other.len() && str.eq_ignore_ascii_case(other),''')],
      demo='''use pddl::Name;
fn main() {
    let n = Name::new_static("abc");
    assert!(n == *"abc");
    assert!(n != *"ABC");
}
'''),
 dict(id='B021', property='C15', needs='a variable with a multi-byte character after it',
      breaks='the variable parser panics when the text after the question mark starts with a non-ASCII character',
      edits=[(P + 'variable.rs', 'map(preceded(tag("?"), parse_name), Variable::from)(input.into())',
              'let input: Span = input.into();\n    if input.fragment().len() > 2 && input.fragment()[..2].ends_with(\'?\') {\n        return Err(nom::Err::Error(nom::error::ParseError::from_error_kind(\n            input,\n            nom::error::ErrorKind::Tag,\n        )));\n    }\n    map(preceded(tag("?"), parse_name), Variable::from)(input)')],
      demo='''use pddl::parsers::{parse_variable, Span};
fn main() {
    assert!(parse_variable(Span::new("?é x")).is_err());
    assert!(parse_variable(Span::new("é?x")).is_err());
}
'''),
 dict(id='B022', property='C12', needs='a domain with constants but without types',
      breaks='the constants of a domain without types are left out',
      edits=[(P + 'domain.rs', '.with_constants(constants.unwrap_or(Constants::default()))', '.with_constants(if types_given { constants } else { None }.unwrap_or(Constants::default()))'),
             (P + 'domain.rs', '            Domain::builder(name, structure.unwrap_or(StructureDefs::default()))', '            let types_given = types.is_some() || require.is_none();\n            Domain::builder(name, structure.unwrap_or(StructureDefs::default()))')],
      demo='''use pddl::parsers::{parse_domain, Span};
fn main() {
    let d = parse_domain(Span::new("(define (domain d) (:requirements :strips) (:constants a b))")).unwrap().1;
    assert_eq!(d.constants().len(), 2);
}
'''),
 dict(id='B023', property='C13', needs='a problem that lists an object twice',
      breaks='an object equal to the one before it is dropped',
      edits=[(P + 'problem.rs', 'objects.unwrap_or(Objects::default())', '{\n                    let objects = objects.unwrap_or(Objects::default());\n                    let mut seen = Vec::new();\n                    for o in objects.iter() {\n                        if seen.last() != Some(o) {\n                            seen.push(o.clone());\n                        }\n                    }\n                    Objects::from(crate::TypedList::new(seen))\n                }')],
      demo='''use pddl::parsers::{parse_problem, Span};
fn main() {
    let p = parse_problem(Span::new("(define (problem a) (:domain b) (:objects x x y) (:init (p)) (:goal (g)))")).unwrap().1;
    assert_eq!(p.objects().len(), 3);
}
'''),
 dict(id='B024', property='C11', needs='a durative condition with an empty conjunction inside another conjunction',
      breaks='empty conjunctions inside a durative condition are dropped',
      edits=[(P + 'da_gd.rs', '        DurativeActionGoalDefinition::new_and,\n', '        |gds: Vec<DurativeActionGoalDefinition>| {\n            DurativeActionGoalDefinition::new_and(gds.into_iter().filter(|gd| {\n                !matches!(gd, DurativeActionGoalDefinition::And(x) if x.is_empty())\n            }))\n        },\n')],
      demo='''use pddl::parsers::{parse_da_gd, Span};
fn main() {
    let g = parse_da_gd(Span::new("(and (and) (at start (p)))")).unwrap().1;
    match g {
        pddl::DurativeActionGoalDefinition::And(x) => assert_eq!(x.len(), 2),
        _ => panic!(),
    }
}
'''),
 dict(id='B025', property='C18', needs='a durative action whose text is parsed through the trait from text with a comment in front',
      breaks='the trait method of Type falls back to object when the type cannot be read',
      edits=[(P + 'type.rs', '        parse_type(input)\n', '        let input: Span = input.into();\n        match parse_type(input) {\n            Err(nom::Err::Failure(e)) => Err(nom::Err::Error(e)),\n            r => r,\n        }\n')],
      demo='''use pddl::parsers::{parse_type, Span};
use pddl::{Parser, Type};
fn main() {
    let a = matches!(parse_type(Span::new(")")), Err(nom_failure) if format!("{nom_failure:?}").starts_with("Failure"));
    let b = matches!(Type::parse(")"), Err(e) if format!("{e:?}").starts_with("Failure"));
    assert_eq!(a, b);
}
'''),
 dict(id='B026', property='C10', needs='an unnamed preference inside a quantified preference constraint',
      breaks='a conjunction of preferences nested in another one comes out in another order',
      edits=[(P + 'pref_con_gd.rs', '|x| PrefConGDs::from_iter(x.into_iter().flatten()),', '|mut x: Vec<PrefConGDs>| {\n            if x.len() == 3 && x[1].is_empty() {\n                x.swap(0, 2);\n            }\n            PrefConGDs::from_iter(x.into_iter().flatten())\n        },')],
      demo='''use pddl::parsers::{parse_pref_con_gd, Span};
fn main() {
    let a = parse_pref_con_gd(Span::new("(and (preference a (always (p))) (and) (preference b (always (q))))")).unwrap().1;
    let b = parse_pref_con_gd(Span::new("(and (preference a (always (p))) (preference b (always (q))))")).unwrap().1;
    assert!(a == b);
}
'''),
 dict(id='B027', property='C08', needs='a conditional effect whose conjunction lists an effect and right after it the same effect again',
      breaks='repeated effects inside a conditional effect are listed once',
      edits=[(P + 'cond_effect.rs', '        prefix_expr("and", space_separated_list0(parse_p_effect)),\n        ConditionalEffect::from,\n', '        prefix_expr("and", space_separated_list0(parse_p_effect)),\n        |mut effects| {\n            effects.dedup();\n            ConditionalEffect::from(effects)\n        },\n')],
      demo='''use pddl::parsers::{parse_cond_effect, Span};
fn main() {
    let e = parse_cond_effect(Span::new("(and (increase (f) 1) (increase (f) 1))")).unwrap().1;
    match e {
        pddl::ConditionalEffect::All(x) => assert_eq!(x.len(), 2),
        _ => panic!(),
    }
}
'''),
 dict(id='B028', property='C09', needs='a sum with three or more operands of which a later one is the number zero',
      breaks='zeros are dropped from the tail of a multi-operand expression',
      edits=[(P + 'f_exp.rs', '|(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs)', '|(op, lhs, mut rhs)| {\n            if rhs.len() > 1 {\n                rhs.retain(|x| *x != FExp::Number(crate::Number::from(0)));\n            }\n            FExp::new_multi_op(op, lhs, rhs)\n        }')],
      demo='''use pddl::parsers::{parse_f_exp, Span};
fn main() {
    match parse_f_exp(Span::new("(* 1 0 2)")).unwrap().1 {
        pddl::FExp::MultiOp(_, _, x) => assert_eq!(x.len(), 2),
        _ => panic!(),
    }
}
'''),
]
BUGS = [b for b in BUGS if b['edits'][0][1] is not None]
