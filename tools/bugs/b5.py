P, T = 'src/parsers/', 'src/types/'
BUGS = [
 dict(id='B090', property='C07', needs='thousands of failed attempts to read a goal earlier in the same thread', breaks='after many rejected goals every goal is rejected: the guard against deep nesting is not released on an error',
      edits=[(P + 'gd.rs', '    alt((and, or, not, imply, exists, forall, af, literal, f_comp))(input.into())\n', '''    thread_local! {
        static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    }
    let input = input.into();
    let depth = DEPTH.with(|d| d.replace(d.get() + 1));
    if depth > 20_000 {
        return Err(nom::Err::Failure(nom::error::ParseError::from_error_kind(
            input,
            nom::error::ErrorKind::TooLarge,
        )));
    }
    let result = alt((and, or, not, imply, exists, forall, af, literal, f_comp))(input)?;
    DEPTH.with(|d| d.set(depth));
    Ok(result)
''')],
      demo='''use pddl::parsers::parse_gd;
use pddl::parsers::Span;
fn main() {
    for _ in 0..50_000 {
        let _ = parse_gd(Span::new("("));
    }
    assert!(parse_gd(Span::new("(p)")).is_ok());
}
'''),
 dict(id='B091', property='C15', needs='a constraint nested more than 40 deep', breaks='parsing panics on deeply nested constraints',
      edits=[(P + 'con_gd.rs', '    // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.\n', '''    // TODO: Add crate feature to allow this to be forbidden if unsupported by the application.
    let input: Span<'a> = input.into();
    assert!(
        input.fragment().bytes().filter(|c| *c == b'(').count() <= 40,
        "constraint too complex"
    );
''')],
      demo='''use pddl::parsers::parse_con_gd;
use pddl::parsers::Span;
fn main() {
    let t = "(always ".repeat(60) + "(p)" + &")".repeat(60);
    assert!(parse_con_gd(Span::new(&t)).is_ok());
}
'''),
 dict(id='B092', property='C20', needs='an initial state with the same element twice in a row', breaks='a clone of an initial state lists repeated elements once',
      edits=[(T + 'init_els.rs', '#[derive(Debug, Clone, PartialEq)]', '#[derive(Debug, PartialEq)]'),
             (T + 'init_els.rs', 'impl Deref for InitElements {', '''impl Clone for InitElements {
    fn clone(&self) -> Self {
        let mut elements: Vec<InitElement> = Vec::with_capacity(self.0.len());
        for element in &self.0 {
            if elements.last() != Some(element) {
                elements.push(element.clone());
            }
        }
        Self(elements)
    }
}

impl Deref for InitElements {''')],
      demo='''use pddl::*;
fn main() {
    let e = InitElement::new_at(Number::from(1.0), NameLiteral::new(AtomicFormula::new_predicate(Predicate::from("p"), vec![])));
    let i = InitElements::new(vec![e.clone(), e]);
    assert_eq!(i.clone().values().len(), i.values().len());
}
'''),
 dict(id='B093', property='C03', needs='a decimal that lies just above the middle of two neighbouring floats', breaks='numbers are rounded twice, so some decimals yield a neighbouring float',
      edits=[(P + 'number.rs', 'use nom::number::complete::float;', 'use nom::number::complete::double;'),
             (P + 'number.rs', '    let float = pattern.and_then(float);\n    map_opt(float, |x| Number::try_new(x).ok())(input.into())', '    let float = pattern.and_then(double);\n    map_opt(float, |x| Number::try_new(x as f32).ok())(input.into())')],
      demo='''use pddl::parsers::{parse_number, Span};
fn main() {
    let t = "1.000000059604644775390626";
    let (_, n) = parse_number(Span::new(t)).unwrap();
    assert_eq!(n, t.parse::<f32>().unwrap());
}
'''),
 dict(id='B094', property='C16', needs='a nested negation written without a space', breaks='a predicate whose name starts with not and a hyphen is taken for a negation in literals',
      edits=[(P + 'literal.rs', 'let is_not = map(prefix_expr("not", atomic_formula(inner)), |af| {', 'let is_not = map(prefix_expr("not", nom::sequence::preceded(nom::combinator::opt(nom::bytes::complete::tag("-")), atomic_formula(inner))), |af| {')],
      demo='''use pddl::parsers::{literal, parse_name, Span};
fn main() {
    assert!(literal(parse_name)(Span::new("(not -(p))")).is_err());
}
'''),
 dict(id='B095', property='C10', needs='(within 0 ...) with a zero bound', breaks='(within 0 c) is read as (at-most-once c)',
      edits=[(P + 'con_gd.rs', '|(num, gd)| ConGD::new_within(num, gd),', '''|(num, gd)| {
            if num == 0.0 {
                ConGD::new_at_most_once(gd)
            } else {
                ConGD::new_within(num, gd)
            }
        },''')],
      demo='''use pddl::parsers::{parse_con_gd, Span};
use pddl::ConGD;
fn main() {
    let (_, c) = parse_con_gd(Span::new("(within 0 (p))")).unwrap();
    assert!(matches!(c, ConGD::Within(..)));
}
'''),
 dict(id='B096', property='C09', needs='a product of a number with itself', breaks='(* x x) with equal operands loses ... an operand',
      edits=[(P + 'f_exp.rs', '|(op, lhs, rhs)| FExp::new_multi_op(op, lhs, rhs),', '''|(op, lhs, mut rhs)| {
            if rhs.len() > 2 && op == crate::types::MultiOp::Multiplication {
                rhs.retain(|x| *x != FExp::new_number(1.0));
            }
            FExp::new_multi_op(op, lhs, rhs)
        },''')],
      demo='''use pddl::parsers::{parse_f_exp, Span};
use pddl::FExp;
fn main() {
    let (_, e) = parse_f_exp(Span::new("(* 2 1 3 4)")).unwrap();
    match e {
        FExp::MultiOp(_, _, v) => assert_eq!(v.len(), 3),
        _ => panic!(),
    }
}
'''),
 dict(id='B097', property='C06', needs='a name with two hyphens in a row', breaks='runs of hyphens in names are collapsed',
      edits=[(P + 'name.rs', '|x: Span| Name::from(*x.fragment()),', '''|x: Span| {
            if x.fragment().contains("--") {
                Name::from(x.fragment().replace("--", "-"))
            } else {
                Name::from(*x.fragment())
            }
        },''')],
      demo='''use pddl::parsers::{parse_name, Span};
fn main() {
    let (_, n) = parse_name(Span::new("a--b")).unwrap();
    assert_eq!(n, "a--b");
}
'''),
 dict(id='B098', property='C17', needs='a preference with an empty name-like goal', breaks='a preference over an empty conjunction loses its name',
      edits=[(T + 'preference.rs', '    fn from(value: (PreferenceName, GoalDefinition)) -> Self {\n        Self::new(Some(value.0), value.1)', '    fn from(value: (PreferenceName, GoalDefinition)) -> Self {\n        let (name, gd) = value;\n        Self::new(Some(name).filter(|_| !gd.is_empty()), gd)')],
      demo='''use pddl::*;
fn main() {
    let p = Preference::from((PreferenceName::from("n"), GoalDefinition::new_and(vec![])));
    assert!(p.name().is_some());
}
'''),
 dict(id='B099', property='C05', needs='two groups of the same type with another one in between', breaks='a group is moved to the earlier group of the same type',
      edits=[(P + 'typed_list.rs', '''            vec.into_iter().flatten().collect::<Vec<_>>()
''', '''            let mut out: Vec<Typed<O>> = Vec::new();
            for group in vec {
                let at = match group.first() {
                    Some(x) if group.len() == 1 => out
                        .iter()
                        .rposition(|y: &Typed<O>| y.type_() == x.type_())
                        .map_or(out.len(), |i| i + 1),
                    _ => out.len(),
                };
                out.splice(at..at, group);
            }
            out
''')],
      demo='''use pddl::parsers::{typed_list, parse_name, Span};
fn main() {
    let (_, l) = typed_list(parse_name)(Span::new("a - t b - u c - t")).unwrap();
    assert_eq!(l.value()[1].value(), "b");
}
'''),
 dict(id='B100', property='C11', needs='a durative effect that scales the elapsed time by one', breaks='(* #t 1) is read as #t',
      edits=[(P + 'f_exp_t.rs', '        FExpT::new_scaled,\n', '''        |exp| {
            if exp == crate::types::FExp::new_number(1) {
                FExpT::new()
            } else {
                FExpT::new_scaled(exp)
            }
        },
''')],
      demo='''use pddl::parsers::{parse_f_exp_t, Span};
use pddl::FExpT;
fn main() {
    let (_, e) = parse_f_exp_t(Span::new("(* #t 1)")).unwrap();
    assert!(e != FExpT::new());
}
'''),
 dict(id='B101', property='C08', needs='a numeric assignment of a function to itself', breaks='(increase (f) (f)) is read as (scale-up (f) 2)',
      edits=[(P + 'p_effect.rs', '|(op, head, exp)| PEffect::new_numeric_fluent(op, head, exp),', '''|(op, head, exp)| {
            if op == crate::types::AssignOp::Increase
                && exp == crate::types::FExp::new_function(head.clone())
            {
                return PEffect::new_numeric_fluent(
                    crate::types::AssignOp::ScaleUp,
                    head,
                    crate::types::FExp::new_number(2),
                );
            }
            PEffect::new_numeric_fluent(op, head, exp)
        },''')],
      demo='''use pddl::parsers::{parse_p_effect, Span};
use pddl::*;
fn main() {
    let (_, e) = parse_p_effect(Span::new("(increase (f) (f))")).unwrap();
    assert!(matches!(e, PEffect::AssignNumericFluent(AssignOp::Increase, _, _)));
}
'''),
 dict(id='B102', property='C19', needs='a set of requirements with repeated entries', breaks='requirements collected from an iterator lose repetitions',
      edits=[(T + 'requirements.rs', '    fn from_iter<T: IntoIterator<Item = Requirement>>(iter: T) -> Self {\n        Requirements::new(iter)', '    fn from_iter<T: IntoIterator<Item = Requirement>>(iter: T) -> Self {\n        let mut seen = HashSet::new();\n        Requirements::new(iter.into_iter().filter(|r| seen.insert(*r)))')],
      demo='''use pddl::*;
fn main() {
    let r = Requirements::from_iter([Requirement::Strips, Requirement::Typing, Requirement::Strips]);
    assert_eq!(r.len(), 3);
}
'''),
]
