P, T = 'src/parsers/', 'src/types/'
BUGS = [
 dict(id='B103', property='C11', needs='a durative effect `(and e)` with exactly one effect that is itself a conjunction', breaks='the inner conjunction of an effect is returned without the outer one',
      edits=[(P + 'da_effect.rs', '''        DurativeActionEffect::from_iter,
''', '''        |mut effects: Vec<DurativeActionEffect>| match effects.pop() {
            Some(inner @ DurativeActionEffect::All(..)) if effects.is_empty() => inner,
            Some(last) => {
                effects.push(last);
                DurativeActionEffect::from_iter(effects)
            }
            None => DurativeActionEffect::from_iter(effects),
        },
''')],
      demo='''use pddl::parsers::{parse_da_effect, Span};
use pddl::DurativeActionEffect as E;
fn main() {
    let (_, e) = parse_da_effect(Span::new("(and (and (at end (p)) (at end (q))))")).unwrap();
    match e {
        E::All(v) => assert_eq!(v.len(), 1),
        _ => panic!(),
    }
}
'''),
 dict(id='B104', property='C09', needs='a sum whose first operand is a sum of several', breaks='nested sums in durative expressions are flattened into one',
      edits=[(P + 'f_exp_da.rs', '''        |(op, lhs, rhs)| FExpDa::new_multi_op(op, lhs, rhs),
''', '''        |(op, lhs, mut rhs)| match lhs {
            FExpDa::MultiOp(inner, first, mut others) if inner == op => {
                others.append(&mut rhs);
                FExpDa::MultiOp(op, first, others)
            }
            lhs => FExpDa::new_multi_op(op, lhs, rhs),
        },
''')],
      demo='''use pddl::parsers::{parse_f_exp_da, Span};
use pddl::FExpDa;
fn main() {
    let (_, e) = parse_f_exp_da(Span::new("(+ (+ ?duration ?duration ?duration) ?duration ?duration)")).unwrap();
    match e {
        FExpDa::MultiOp(_, lhs, rhs) => {
            assert_eq!(rhs.len(), 2);
            assert!(matches!(*lhs, FExpDa::MultiOp(..)));
        }
        _ => panic!(),
    }
}
'''),
 dict(id='B105', property='C09', needs='a fluent applied to the same term twice in a row', breaks='repeated arguments of a fluent are lost',
      edits=[(P + 'f_head.rs', '''        |(symbol, terms)| FHead::new_with_terms(symbol, terms),
''', '''        |(symbol, mut terms)| {
            terms.dedup();
            FHead::new_with_terms(symbol, terms)
        },
''')],
      demo='''use pddl::parsers::{parse_f_head, Span};
use pddl::FHead;
fn main() {
    let (_, h) = parse_f_head(Span::new("(dist ?x ?x)")).unwrap();
    match h {
        FHead::WithTerms(_, t) => assert_eq!(t.len(), 2),
        _ => panic!(),
    }
}
'''),
 dict(id='B106', property='C13', needs='an initial state in which a fact is listed twice in a row', breaks='repeated elements of :init are lost',
      edits=[(P + 'init_def.rs', '''        InitElements::new,
''', '''        |mut elements| {
            elements.dedup();
            InitElements::new(elements)
        },
''')],
      demo='''use pddl::parsers::{parse_problem_init_def, Span};
fn main() {
    let (_, h) = parse_problem_init_def(Span::new("(:init (p a) (p a) (q))")).unwrap();
    assert_eq!(h.values().len(), 3);
}
'''),
 dict(id='B107', property='C07', needs='a named preference whose goal is again empty', breaks='the name of a preference over an empty goal is lost',
      edits=[(P + 'pref_gd.rs', '''        |(pref, gd)| PreferenceGD::from_preference(Preference::new(pref, gd)),
''', '''        |(pref, gd)| {
            let pref = if gd.is_empty() { None } else { pref };
            PreferenceGD::from_preference(Preference::new(pref, gd))
        },
''')],
      demo='''use pddl::parsers::{parse_pref_gd, Span};
use pddl::PreferenceGD;
fn main() {
    let (_, h) = parse_pref_gd(Span::new("(preference p1 (and))")).unwrap();
    match h {
        PreferenceGD::Preference(p) => assert!(p.name().is_some()),
        _ => panic!(),
    }
}
'''),
 dict(id='B108', property='C11', needs='a duration constraint inside two `at`', breaks='of nested time specifiers only the inner one remains',
      edits=[(P + 'simple_duration_constraint.rs', '''                preceded(multispace1, parse_simple_duration_constraint),
            )),
        ),
        SimpleDurationConstraint::from,
''', '''                preceded(multispace1, parse_simple_duration_constraint),
            )),
        ),
        |(time, inner)| match inner {
            SimpleDurationConstraint::At(..) => inner,
            op => SimpleDurationConstraint::new_at(time, op),
        },
''')],
      demo='''use pddl::parsers::{parse_simple_duration_constraint, Span};
use pddl::SimpleDurationConstraint as S;
fn main() {
    let (_, h) = parse_simple_duration_constraint(Span::new("(at start (at end (= ?duration 5)))")).unwrap();
    match h {
        S::At(_, inner) => assert!(matches!(*inner, S::At(..))),
        _ => panic!(),
    }
}
'''),
 dict(id='B109', property='C11', needs='a scaling assignment by the duration', breaks='scale-down by ?duration is read as scale-up',
      edits=[(P + 'f_assign_da.rs', '''        FAssignDa::from,
    )(input.into())''', '''        |(op, head, exp)| {
            let op = match (op, &exp) {
                (crate::types::AssignOp::ScaleDown, crate::types::FExpDa::Duration) => {
                    crate::types::AssignOp::ScaleUp
                }
                (op, _) => op,
            };
            FAssignDa::new(op, head, exp)
        },
    )(input.into())''')],
      demo='''use pddl::parsers::{parse_f_assign_da, Span};
fn main() {
    let (_, a) = parse_f_assign_da(Span::new("(scale-down fuel ?duration)")).unwrap();
    let (_, b) = parse_f_assign_da(Span::new("(scale-up fuel ?duration)")).unwrap();
    assert!(a != b);
}
'''),
 dict(id='B110', property='C14', needs='more than 100 consecutive comment lines', breaks='long blocks of comments are rejected',
      edits=[(P + 'comments.rs', '''        opt(terminated(
            pair(char(';'), opt(is_not("\\r\\n"))),
            tuple((multispace0, opt(ignore_eol_comment))),
        )),
''', '''        nom::multi::many_m_n(
            0,
            100,
            terminated(pair(char(';'), opt(is_not("\\r\\n"))), multispace0),
        ),
''')],
      demo='''use pddl::parsers::{parse_gd, Span};
fn main() {
    let t = "; a comment\\n".repeat(130) + "(p)";
    let u = "; a comment\\n".repeat(30) + "(p)";
    let a = pddl::parsers::ignore_eol_comment(Span::new(&t)).unwrap().0;
    let b = pddl::parsers::ignore_eol_comment(Span::new(&u)).unwrap().0;
    assert!(parse_gd(b).is_ok());
    assert!(parse_gd(a).is_ok());
    assert!(a.fragment().starts_with("(p)"));
}
'''),
 dict(id='B111', property='C12', needs='a derived predicate before an action', breaks='derived predicates are moved behind the actions',
      edits=[(T + 'structure_defs.rs', '''        Self(defs.into_iter().collect())
''', '''        let mut defs: Vec<StructureDef> = defs.into_iter().collect();
        defs.sort_by_key(|def| matches!(def, StructureDef::Derived(_)));
        Self(defs)
''')],
      demo='''use pddl::parsers::{parse_domain, Span};
fn main() {
    let (_, d) = parse_domain(Span::new("(define (domain d) (:derived (p) (q)) (:action a :parameters ()))")).unwrap();
    assert!(matches!(d.structure()[0], pddl::StructureDef::Derived(_)));
}
'''),
 dict(id='B112', property='C17', needs='a conjunction of several effects', breaks='the single effect of a conjunction of several is its first',
      edits=[(T + 'effects.rs', 'if self.len() == 1 {', 'if !self.is_empty() {')],
      demo='''use pddl::parsers::{parse_effect, Span};
fn main() {
    let (_, d) = parse_effect(Span::new("(and (p) (q))")).unwrap();
    assert!(d.try_get_single().is_none());
}
'''),
 dict(id='B113', property='C19', needs='a `hold-during` over an empty goal', breaks='a constraint over an empty goal is not empty',
      edits=[(T + 'con_gd.rs', 'ConGD::HoldDuring(_, _, x) => x.is_empty(),', 'ConGD::HoldDuring(begin, end, x) => x.is_empty() && begin <= end,')],
      demo='''use pddl::parsers::{parse_con_gd, Span};
fn main() {
    let (_, d) = parse_con_gd(Span::new("(hold-during 5 3 (and))")).unwrap();
    assert!(d.is_empty());
}
'''),
 dict(id='B114', property='C17', needs='a variable named with leading question marks', breaks='a variable made from a text starting with ? loses it',
      edits=[(T + 'variable.rs', '''        Self(Name::new(name))
''', '''        Self(Name::new(name.trim_start_matches('?')))
''')],
      demo='''use pddl::{Name, Variable};
fn main() {
    assert_eq!(Variable::from_str("?x"), Variable::new(Name::new("?x")));
}
'''),
 dict(id='B115', property='C10', needs='a conjunction of constraints directly inside another', breaks='nested conjunctions of constraints are flattened',
      edits=[(T + 'con_gd.rs', '''        Self::And(goals.into_iter().collect())
''', '''        let mut flat = Vec::new();
        for goal in goals {
            match goal {
                ConGD::And(inner) if !inner.is_empty() => flat.extend(inner),
                goal => flat.push(goal),
            }
        }
        Self::And(flat)
''')],
      demo='''use pddl::parsers::{parse_con_gd, Span};
use pddl::ConGD;
fn main() {
    let (_, d) = parse_con_gd(Span::new("(and (and (always (p)) (always (q))) (always (r)))")).unwrap();
    match d {
        ConGD::And(v) => assert_eq!(v.len(), 2),
        _ => panic!(),
    }
}
'''),
 dict(id='B116', property='C08', needs='an empty section whose parentheses are on different lines', breaks='an empty effect or precondition with a line break inside is rejected',
      edits=[(P + 'empty_or.rs', 'multispace0, tag(")")', 'nom::character::complete::space0, tag(")")')],
      demo='''use pddl::parsers::{parse_action_def, Span};
fn main() {
    assert!(parse_action_def(Span::new("(:action a :parameters () :effect ( ))")).is_ok());
    assert!(parse_action_def(Span::new("(:action a :parameters () :effect (\\n))")).is_ok());
}
'''),
 dict(id='B117', property='C07', needs='a `forall` without variables over several preconditions', breaks='a quantifier without variables is dropped',
      edits=[(P + 'pre_gd.rs', '''        |(vars, gd)| {
            PreconditionGoalDefinitions::from''', '''        |(vars, gd)| {
            if vars.is_empty() {
                return gd;
            }
            PreconditionGoalDefinitions::from''')],
      demo='''use pddl::parsers::{parse_pre_gd, Span};
fn main() {
    let (_, d) = parse_pre_gd(Span::new("(forall () (and (p) (q)))")).unwrap();
    assert_eq!(d.len(), 1);
}
'''),
 dict(id='B118', property='C18', needs='a preference with a long name, read through the trait', breaks='through the trait a preference loses a long name',
      edits=[(P + 'pref_timed_gd.rs', '''        parse_pref_timed_gd(input)
''', '''        let (rest, gd) = parse_pref_timed_gd(input)?;
        let gd = match gd {
            PrefTimedGD::Preference(Some(name), gd) => {
                PrefTimedGD::Preference(Some(name).filter(|n| n.len() < 64), gd)
            }
            required => required,
        };
        Ok((rest, gd))
''')],
      demo='''use pddl::parsers::{parse_pref_timed_gd, Parser, Span};
use pddl::PrefTimedGD;
fn main() {
    let t = format!("(preference {} (at start (p)))", "p".repeat(80));
    assert_eq!(parse_pref_timed_gd(Span::new(&t)).unwrap().1, PrefTimedGD::parse(Span::new(&t)).unwrap().1);
}
'''),
 dict(id='B119', property='C05', needs='a declaration that repeats a name', breaks='a type declared again with the same parent is dropped',
      edits=[(P + 'types_def.rs', '''        Types::new(vec)
''', '''        let mut seen: Vec<crate::types::Typed<crate::types::Name>> = Vec::new();
        for item in vec.iter() {
            if !seen.contains(item) {
                seen.push(item.clone());
            }
        }
        Types::new(seen.into())
''')],
      demo='''use pddl::parsers::{parse_types_def, Span};
fn main() {
    let (_, d) = parse_types_def(Span::new("(:types a b a - c)")).unwrap();
    assert_eq!(d.values().len(), 3);
}
'''),
 dict(id='B121', property='C17', needs='a negative number as the value of a duration', breaks='a negative duration is read as zero',
      edits=[(T + 'd_value.rs', '''        Self::Number(number.into())
''', '''        let number: Number = number.into();
        Self::Number(if *number < 0.0 { Number::from(0) } else { number })
''')],
      demo='''use pddl::DurationValue;
fn main() {
    assert_eq!(DurationValue::new_number(-2.0f32), DurationValue::Number(pddl::Number::from(-2.0f32)));
}
'''),
 dict(id='B122', property='C06', needs='a term read after a comment', breaks='a function term whose closing parenthesis is on its own is rejected',
      edits=[(P + 'function_term.rs', 'ws(tag(")")),', 'tag(")"),')],
      demo='''use pddl::parsers::{parse_function_term, Span};
fn main() {
    assert!(parse_function_term(Span::new("(f a )")).is_ok());
    assert!(parse_function_term(Span::new("(f )")).is_ok());
}
'''),
]
