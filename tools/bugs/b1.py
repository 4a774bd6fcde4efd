U = 'use pddl::parsers::{preamble::*, *};\nuse pddl::*;\n#[allow(unused_imports)]\nuse pddl::Parser as _;\n'
BUGS = [
 dict(id='B001', property='C10', needs='a hold-during constraint whose first bound is larger than its second',
      breaks='the bounds of hold-during are swapped when they are written in descending order',
      edits=[('src/parsers/con_gd.rs', '|(t0, t1, gd)| ConGD::new_hold_during(t0, t1, gd),',
              '|(t0, t1, gd)| {\n            if t1 < t0 {\n                ConGD::new_hold_during(t1, t0, gd)\n            } else {\n                ConGD::new_hold_during(t0, t1, gd)\n            }\n        },')],
      demo='''use pddl::parsers::{parse_con_gd, Span};
fn main() {
    let a = parse_con_gd(Span::new("(hold-during 9 4 (p))")).unwrap().1;
    let b = parse_con_gd(Span::new("(hold-during 4 9 (p))")).unwrap().1;
    assert!(a != b);
    match a {
        pddl::ConGD::HoldDuring(x, y, _) => assert!(x > y),
        _ => panic!(),
    }
}
'''),
 dict(id='B002', property='C08', needs='an object fluent assigned a constant named like undefined in other letter case',
      breaks='(assign (f) Undefined) is read as the absence of a value',
      edits=[('src/parsers/p_effect.rs', 'tuple((multispace1, tag("undefined")))', 'tuple((multispace1, nom::bytes::complete::tag_no_case("undefined")))')],
      demo='''use pddl::parsers::{parse_p_effect, Span};
fn main() {
    let e = parse_p_effect(Span::new("(assign (f ?x) Undefined)")).unwrap().1;
    match e {
        pddl::PEffect::AssignObjectFluent(_, t) => assert!(t.is_some()),
        _ => panic!(),
    }
}
'''),
 dict(id='B003', property='C09', needs='a metric with a negation directly inside a negation',
      breaks='a double negation is dropped from the metric expression',
      edits=[('src/parsers/metric_f_exp.rs', '''            parse_metric_f_exp,
        )),
        MetricFExp::new_negative,
    );''', '''            parse_metric_f_exp,
        )),
        |exp| match exp {
            MetricFExp::Negative(inner) => *inner,
            exp => MetricFExp::new_negative(exp),
        },
    );''')],
      demo='''use pddl::parsers::{parse_metric_f_exp, Span};
fn main() {
    let e = parse_metric_f_exp(Span::new("(- (- x))")).unwrap().1;
    assert!(matches!(e, pddl::MetricFExp::Negative(_)));
}
'''),
 dict(id='B004', property='C13', needs='a timed initial literal at time zero',
      breaks='(at 0 (p)) is read as an untimed initial literal',
      edits=[('src/parsers/init_el.rs', '|(time, name)| InitElement::new_at(time, name),',
              '|(time, name)| {\n            if time == crate::Number::from(0) {\n                InitElement::new_literal(name)\n            } else {\n                InitElement::new_at(time, name)\n            }\n        },')],
      demo='''use pddl::parsers::{parse_problem, Span};
fn main() {
    let p = parse_problem(Span::new("(define (problem a) (:domain b) (:init (at 0.0 (p))) (:goal (g)))")).unwrap().1;
    let i: Vec<_> = p.init().iter().collect();
    assert!(matches!(i[0], pddl::InitElement::At(_, _)));
}
'''),
 dict(id='B005', property='C05', needs='an either type with exactly one alternative',
      breaks='(either a) loses its either',
      edits=[('src/parsers/type.rs', 'return Ok((remaining, Type::EitherOf(types)));',
              'let mut types = types;\n        return Ok((\n            remaining,\n            if types.len() == 1 {\n                Type::Exactly(types.remove(0))\n            } else {\n                Type::EitherOf(types)\n            },\n        ));')],
      demo='''use pddl::parsers::{parse_types_def, Span};
fn main() {
    let t = parse_types_def(Span::new("(:types a b - (either c))")).unwrap().1;
    for x in t.iter() {
        assert!(matches!(x.type_(), pddl::Type::EitherOf(v) if v.len() == 1));
    }
}
'''),
 dict(id='B006', property='C15', needs='a length bound that does not fit 64 bits',
      breaks='parsing panics on a :parallel bound beyond u64',
      edits=[('src/parsers/length_spec.rs', 'let parallel = prefix_expr(":parallel", nom::character::complete::u64);',
              'let parallel = prefix_expr(\n        ":parallel",\n        map(nom::character::complete::digit1, |x: Span| {\n            x.fragment().parse::<u64>().expect("a number")\n        }),\n    );')],
      demo='''use pddl::parsers::{parse_problem_length_spec, Span};
fn main() {
    assert!(parse_problem_length_spec(Span::new("(:length (:parallel 17))")).is_ok());
    let r = std::panic::catch_unwind(|| { let _ = parse_problem_length_spec(Span::new("(:length (:parallel 18446744073709551616))")); });
    assert!(r.is_ok());
}
'''),
 dict(id='B007', property='C16', needs='a predicate that is called like a connective',
      breaks='a predicate named imply cannot be used any more',
      edits=[('src/parsers/predicate.rs', 'map(parse_name, Predicate::from)(input.into())',
              'map(\n        nom::combinator::verify(parse_name, |n: &crate::types::Name| &**n != "imply"),\n        Predicate::from,\n    )(input.into())')],
      demo='''use pddl::parsers::{parse_predicates_def, Span};
fn main() {
    assert!(parse_predicates_def(Span::new("(:predicates (imply ?a ?b) (q))")).is_ok());
}
'''),
 dict(id='B008', property='C11', needs='a durative action whose duration is an and of a single constraint',
      breaks='a one-element conjunction of duration constraints turns into a plain constraint',
      edits=[('src/parsers/duration_constraint.rs', '|cs| Some(DurationConstraint::from_iter(cs)),',
              '|mut cs| {\n            Some(if cs.len() == 1 {\n                DurationConstraint::from(cs.remove(0))\n            } else {\n                DurationConstraint::from_iter(cs)\n            })\n        },')],
      demo='''use pddl::parsers::{parse_duration_constraint, Span};
fn main() {
    let d = parse_duration_constraint(Span::new("(and (<= ?duration 5))")).unwrap().1.unwrap();
    assert!(matches!(d, pddl::DurationConstraint::All(_)));
}
'''),
 dict(id='B009', property='C12', needs='a domain with both an extends clause and constants, and no types',
      breaks='requirements written twice are listed once',
      edits=[('src/parsers/requirements.rs', '''        Requirements::new,
    )(input.into())''', '''        |mut keys| {
            keys.dedup();
            Requirements::new(keys)
        },
    )(input.into())''')],
      demo='''use pddl::parsers::{parse_domain, Span};
fn main() {
    let d = parse_domain(Span::new("(define (domain d) (:requirements :strips :strips :typing) (:predicates (p)))")).unwrap().1;
    assert_eq!(d.requirements().len(), 3);
}
'''),
]
BUGS[-1]['needs'] = 'a requirement key written twice in a row'
