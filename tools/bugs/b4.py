P, T = 'src/parsers/', 'src/types/'
BUGS = [
 dict(id='B060', property='C01', needs='an abbreviated requirement of at least twelve characters', breaks='a requirement can be abbreviated when it is converted from a string',
      edits=[(T + 'requirement.rs', '            names::ACTION_COSTS => Ok(Requirement::ActionCosts),\n', '            names::ACTION_COSTS => Ok(Requirement::ActionCosts),\n            _ if value.len() > 20 && names::TIMED_INITIAL_LITERALS.starts_with(value) => {\n                Ok(Self::TimedInitialLiterals)\n            }\n')],
      demo='''use pddl::Requirement;
fn main() {
    assert!(Requirement::try_from(":timed-initial-literal").is_err());
}
'''),
 dict(id='B061', property='C02', needs='requirements that consist of :action-costs and nothing else', breaks='the effective set of [:action-costs] also has :strips',
      edits=[(T + 'requirements.rs', 'if set.is_empty() {', 'if set.iter().all(|r| *r == Requirement::ActionCosts) {')],
      demo='''use pddl::{Requirement, Requirements};
fn main() {
    assert_eq!(Requirements::new([Requirement::ActionCosts]).to_effective().len(), 1);
}
'''),
 dict(id='B062', property='C03', needs='two different subnormal numbers', breaks='subnormal numbers all compare equal to zero, though they hash apart',
      edits=[(T + 'number.rs', '        // Treat NaN as equal.\n', '        if lhs.abs() < f32::MIN_POSITIVE && rhs.abs() < f32::MIN_POSITIVE {\n            return Ordering::Equal;\n        }\n\n        // Treat NaN as equal.\n')],
      demo='''use pddl::Number;
fn main() {
    assert!(Number::new(f32::from_bits(1)) > Number::new(0.0));
}
'''),
 dict(id='B063', property='C03', needs='an unsigned integer above 2^31', breaks='large unsigned integers become negative numbers',
      edits=[(T + 'number.rs', '''impl From<u32> for Number {
    fn from(value: u32) -> Self {
        Number::new(value as UnderlyingType)''', '''impl From<u32> for Number {
    fn from(value: u32) -> Self {
        Number::new(value as i32 as UnderlyingType)''')],
      demo='''use pddl::Number;
fn main() {
    assert!(*Number::from(3000000000u32) > 0.0);
}
'''),
 dict(id='B064', property='C04', needs='a name that ends with an underscore after a well-known word', breaks='the names object_ and number_ lose their underscore',
      edits=[(T + 'name.rs', 'if let Some(str) = Self::map_to_static(name.as_ref()) {', "if let Some(str) = Self::map_to_static(name.as_ref().trim_end_matches('_')) {")],
      demo='''use pddl::Name;
fn main() {
    assert_eq!(Name::new("object_".to_string()), "object_");
}
'''),
 dict(id='B065', property='C05', needs='an explicitly typed object group before another typed group', breaks='groups of type object are moved behind the other typed groups',
      edits=[(P + 'typed_list.rs', '        explicit.append(&mut implicit);\n', '        explicit.sort_by_key(|item| item.type_() == &crate::types::Type::OBJECT);\n        explicit.append(&mut implicit);\n')],
      demo='''use pddl::parsers::{parse_types_def, Span};
fn main() {
    let (_, t) = parse_types_def(Span::new("(:types a - object b - c)")).unwrap();
    assert_eq!(**t.value()[0].value(), *"a");
}
'''),
 dict(id='B066', property='C06', needs='an equality of a name and a variable, in this order', breaks='(= a ?x) is read as (= ?x a)',
      edits=[(T + 'atomic_formula.rs', 'EqualityAtomicFormula::new(value.0, value.1)', '''let (a, b) = value;
        if std::mem::size_of::<T>() > std::mem::size_of::<crate::types::Name>() {
            EqualityAtomicFormula::new(b, a)
        } else {
            EqualityAtomicFormula::new(a, b)
        }''')],
      demo='''use pddl::parsers::{parse_gd, Span};
use pddl::{AtomicFormula, GoalDefinition, Term};
fn main() {
    let (_, g) = parse_gd(Span::new("(= a ?x)")).unwrap();
    match g {
        GoalDefinition::AtomicFormula(AtomicFormula::Equality(e)) => assert!(matches!(e.first(), Term::Name(_))),
        _ => panic!(),
    }
}
'''),
 dict(id='B067', property='C07', needs='a quantifier over no variables', breaks='(forall () g) is read as g when g is a conjunction',
      edits=[(T + 'gd.rs', 'Self::new_forall(tuple.0, tuple.1)', '''match tuple {
            (variables, gd @ Self::And(_)) if variables.is_empty() => gd,
            (variables, gd) => Self::new_forall(variables, gd),
        }''')],
      demo='''use pddl::parsers::{parse_gd, Span};
use pddl::GoalDefinition;
fn main() {
    let (_, g) = parse_gd(Span::new("(forall () (and (p)))")).unwrap();
    assert!(matches!(g, GoalDefinition::ForAll(..)));
}
'''),
 dict(id='B068', property='C08', needs='a conditional effect that is a conjunction of exactly one negated atom', breaks='(when c (and (not (p)))) is read as (when c (not (p)))',
      edits=[(T + 'conditional_effect.rs', '''    fn from(value: Vec<PEffect>) -> Self {
        ConditionalEffect::new_and(value)''', '''    fn from(mut value: Vec<PEffect>) -> Self {
        if value.len() == 1 && matches!(value[0], PEffect::NotAtomicFormula(_)) {
            if let Some(single) = value.pop() {
                return ConditionalEffect::new(single);
            }
        }
        ConditionalEffect::new_and(value)''')],
      demo='''use pddl::parsers::{parse_cond_effect, Span};
use pddl::ConditionalEffect;
fn main() {
    let (_, g) = parse_cond_effect(Span::new("(and (not (p)))")).unwrap();
    assert!(matches!(g, ConditionalEffect::All(_)));
}
'''),
 dict(id='B069', property='C09', needs='a product of a number and a function, in this order', breaks='(* 2 (f)) is read as (* (f) 2)',
      edits=[(T + 'f_exp.rs', '        Self::BinaryOp(op, Box::new(lhs), Box::new(rhs))', '''        if op == BinaryOp::Multiplication
            && matches!(lhs, Self::Number(_))
            && matches!(rhs, Self::Function(FHead::WithTerms(..)))
        {
            return Self::BinaryOp(op, Box::new(rhs), Box::new(lhs));
        }
        Self::BinaryOp(op, Box::new(lhs), Box::new(rhs))''')],
      demo='''use pddl::parsers::{parse_f_exp, Span};
use pddl::FExp;
fn main() {
    let (_, g) = parse_f_exp(Span::new("(* 2 (f x))")).unwrap();
    assert!(matches!(g, FExp::BinaryOp(_, l, _) if matches!(*l, FExp::Number(_))));
}
'''),
 dict(id='B070', property='C10', needs='a quantified constraint over no variables', breaks='(forall () c) is read as c',
      edits=[(P + 'con_gd.rs', '|(vars, gd)| ConGD::new_forall(vars, gd),', '''|(vars, gd)| {
            if vars.is_empty() && matches!(gd, ConGD::And(_)) {
                gd
            } else {
                ConGD::new_forall(vars, gd)
            }
        },''')],
      demo='''use pddl::parsers::{parse_con_gd, Span};
use pddl::ConGD;
fn main() {
    let (_, g) = parse_con_gd(Span::new("(forall () (and (always (p))))")).unwrap();
    assert!(matches!(g, ConGD::Forall(..)));
}
'''),
 dict(id='B071', property='C11', needs='a duration constraint with two nested time specifiers that are the same', breaks='(at start (at start c)) is read as (at start c)',
      edits=[(T + 'simple_duration_constraint.rs', '        Self::At(time, Box::new(constraint))', '''        match constraint {
            Self::At(inner, nested) if inner == time => Self::At(time, nested),
            constraint => Self::At(time, Box::new(constraint)),
        }''')],
      demo='''use pddl::parsers::{parse_simple_duration_constraint, Span};
use pddl::SimpleDurationConstraint as S;
fn main() {
    let (_, g) = parse_simple_duration_constraint(Span::new("(at end (at end (= ?duration 1)))")).unwrap();
    assert!(matches!(g, S::At(_, i) if matches!(*i, S::At(..))));
}
'''),
 dict(id='B072', property='C12', needs='a derived predicate written before an action', breaks='derived predicates are moved behind the actions',
      edits=[(P + 'domain.rs', '                        StructureDefs::new,\n', '''                        |mut definitions: Vec<crate::types::StructureDef>| {
                            definitions.sort_by_key(|x| matches!(x, crate::types::StructureDef::Derived(_)));
                            StructureDefs::new(definitions)
                        },
''')],
      demo='''use pddl::parsers::{parse_domain, Span};
use pddl::StructureDef;
fn main() {
    let (_, d) = parse_domain(Span::new("(define (domain d) (:derived (p) (q)) (:action a :parameters () :effect (p)))")).unwrap();
    assert!(matches!(d.structure()[0], StructureDef::Derived(_)));
}
'''),
 dict(id='B073', property='C13', needs='a problem with both a metric and a length', breaks='the length is dropped when the metric minimises',
      edits=[(P + 'problem.rs', '                metric,\n                length,\n', '                metric.clone(),\n                length.filter(|_| metric.map_or(true, |m| m.optimization() != crate::types::Optimization::Minimize)),\n')],
      demo='''use pddl::parsers::{parse_problem, Span};
fn main() {
    let (_, p) = parse_problem(Span::new("(define (problem p) (:domain d) (:init) (:goal (and)) (:metric minimize total-time) (:length (:serial 3)))")).unwrap();
    assert!(p.length_spec().is_some());
}
'''),
 dict(id='B074', property='C15', needs='a name longer than 255 bytes', breaks='parsing panics on very long names',
      edits=[(P + 'name.rs', '|x: Span| Name::from(*x.fragment()),', '''|x: Span| {
            let length = u8::try_from(x.fragment().len()).expect("name too long");
            Name::from(&x.fragment()[..usize::from(length)])
        },''')],
      demo='''use pddl::parsers::{parse_name, Span};
fn main() {
    let _ = parse_name(Span::new(&"a".repeat(300)));
}
'''),
 dict(id='B075', property='C16', needs='a name with more than 24 alternations of letters, digits and dashes', breaks='names that alternate very often between letters and digits are cut short',
      edits=[(P + 'name.rs', 'many0(parse_any_char)', 'nom::multi::many_m_n(0, 24, parse_any_char)')],
      demo='''use pddl::parsers::{parse_name, Span};
fn main() {
    let t = "a1".repeat(20);
    let (r, _) = parse_name(Span::new(&t)).unwrap();
    assert!(r.fragment().is_empty());
}
'''),
 dict(id='B076', property='C17', needs='a function head built with no terms', breaks='a function head with an empty term list becomes one without terms',
      edits=[(T + 'f_head.rs', 'Self::WithTerms(symbol, terms.into_iter().collect())', '''let mut terms = terms.into_iter().peekable();
        if terms.peek().is_none() {
            return Self::Simple(symbol);
        }
        Self::WithTerms(symbol, terms.collect())''')],
      demo='''use pddl::{FHead, FunctionSymbol};
fn main() {
    assert!(matches!(FHead::new_with_terms(FunctionSymbol::from("f"), []), FHead::WithTerms(..)));
}
'''),
 dict(id='B077', property='C18', needs='a constants section where an objects section is expected', breaks='the trait method of Objects also accepts (:constants ...)',
      edits=[(P + 'objects_def.rs', '        parse_problem_objects_declaration(input)\n    }\n}', '''        let input = input.into();
        nom::branch::alt((
            parse_problem_objects_declaration,
            map(prefix_expr(":constants", typed_list(parse_name)), Objects::new),
        ))(input)
    }
}''')],
      demo='''use pddl::{Objects, Parser};
fn main() {
    assert!(Objects::from_str("(:constants a)").is_err());
}
'''),
 dict(id='B078', property='C19', needs='internal iteration (for_each, fold) over a list of two or more', breaks='for_each over a conjunction skips its first element',
      edits=[(T + 'iterators.rs', '            Self::Vec(ref mut iter) => iter.next(),\n        }\n    }\n', '''            Self::Vec(ref mut iter) => iter.next(),
        }
    }

    fn fold<B, F>(mut self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut state = init;
        if let Self::Vec(ref mut iter) = self {
            if iter.len() > 1 {
                iter.next();
            }
        }
        while let Some(item) = self.next() {
            state = f(state, item);
        }
        state
    }
''')],
      demo='''use pddl::Type;
fn main() {
    let mut n = 0;
    Type::from(vec!["a", "b", "c"]).into_iter().for_each(|_| n += 1);
    assert_eq!(n, 3);
}
'''),
 dict(id='B079', property='C19', needs='skipping elements of a list (nth, skip)', breaks='nth returns the element after the one asked for',
      edits=[(T + 'iterators.rs', '            Self::Vec(ref mut iter) => iter.next(),\n        }\n    }\n', '''            Self::Vec(ref mut iter) => iter.next(),
        }
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        match self {
            Self::Never => None,
            Self::Once(ref mut iter) => iter.nth(n),
            Self::Vec(ref mut iter) => iter.by_ref().skip(n + usize::from(n > 1)).next(),
        }
    }
''')],
      demo='''use pddl::{PrimitiveType, Type};
fn main() {
    let t = Type::from(vec!["a", "b", "c", "d"]).into_iter().nth(2);
    assert_eq!(t, Some(PrimitiveType::from("c")));
}
'''),
 dict(id='B080', property='C19', needs='a list compared with a longer slice that starts with it', breaks='a typed list equals any slice that starts with it',
      edits=[(T + 'typed_list.rs', '''    fn eq(&self, other: &[Typed<T>]) -> bool {
        self.0.eq(other)''', '''    fn eq(&self, other: &[Typed<T>]) -> bool {
        self.0.iter().zip(other).all(|(a, b)| a == b)''')],
      demo='''use pddl::{Name, Typed, TypedList};
fn main() {
    let a = Typed::new_object(Name::new("a"));
    let l = TypedList::new(vec![a.clone()]);
    assert!(l != [a.clone(), a][..]);
}
'''),
 dict(id='B081', property='C20', needs='two sums that differ in the order of two operands', breaks='sums are equal up to the order of their first two operands',
      edits=[(T + 'f_exp.rs', '#[derive(Debug, Clone, PartialEq)]\npub enum FExp {', '''impl PartialEq for FExp {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Number(a), Self::Number(b)) => a == b,
            (Self::Function(a), Self::Function(b)) => a == b,
            (Self::Negative(a), Self::Negative(b)) => a == b,
            (Self::BinaryOp(o, a, b), Self::BinaryOp(p, c, d)) => o == p && a == c && b == d,
            (Self::MultiOp(o, a, r), Self::MultiOp(p, b, s)) => {
                o == p
                    && (a == b && r == s
                        || *o == MultiOp::Addition
                            && r.len() == 1
                            && s.len() == 1
                            && **a == s[0]
                            && r[0] == **b)
            }
            _ => false,
        }
    }
}

/// A numeric expression.
#[derive(Debug, Clone)]
pub enum FExp {''')],
      demo='''use pddl::{FExp, MultiOp};
fn main() {
    let n = |x: i32| FExp::new_number(x);
    assert!(FExp::new_multi_op(MultiOp::Addition, n(1), [n(2)]) != FExp::new_multi_op(MultiOp::Addition, n(2), [n(1)]));
}
'''),
 dict(id='B082', property='C20', needs='a clone of a definition without precondition', breaks='cloning an either type of a single type gives that type',
      edits=[(T + 'type.rs', '#[derive(Debug, Clone, Eq, PartialEq)]\npub enum Type {', '''impl Clone for Type {
    fn clone(&self) -> Self {
        match self {
            Self::Exactly(single) => Self::Exactly(single.clone()),
            Self::EitherOf(types) => match types.as_slice() {
                [single] if &*single.0 == "number" => Self::Exactly(single.clone()),
                types => Self::EitherOf(types.to_vec()),
            },
        }
    }
}

/// A type.
#[derive(Debug, Eq, PartialEq)]
pub enum Type {''')],
      demo='''use pddl::Type;
fn main() {
    let t = Type::from(vec!["number"]);
    assert_eq!(t.clone(), t);
}
'''),
]
