//! The properties of conversions, and of equality and printing.

use crate::parseprops::{any_segs, any_token_type, feed, lay, odd_position, same_position, too_deep};
use crate::props::{Case, Property};
use crate::sut::{self, guard};
use crate::tape::Tape;
use crate::words::*;
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenType, TokenValue};
use lolcode_ast::parser::expression::binary_operation::BinaryOpt;
use lolcode_ast::parser::expression::nary_operations::NaryOpt;
use lolcode_ast::parser::expression::unary_operation::UnaryOpt;
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue, ASTType};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;

type Res = Result<(), String>;

fn show(t: &Token) -> String {
    let p = |p: &Position| format!("L{} C{} byte {} char {}", p.line, p.column, p.bytes, p.chars);
    format!("{} at {} to {}", type_debug(&t.token_type), p(&t.range.0), p(&t.range.1))
}

fn same(a: &Token, b: &Token) -> bool {
    type_debug(&a.token_type) == type_debug(&b.token_type)
        && same_position(&a.range.0, &b.range.0)
        && same_position(&a.range.1, &b.range.1)
}

fn unchanged(what: &str, expected: &Token, got: &Token) -> Res {
    match same(expected, got) {
        true => Ok(()),
        false => Err(format!("{what}: {} became {}", show(expected), show(got))),
    }
}

fn any_token(t: &mut Tape) -> Token {
    let token_type = match t.weighted(&[40, 40, 20]) {
        0 => any_token_type(t),
        1 => TokenType::Keyword(t.pick(&all_keywords()).1.clone()),
        _ => value(t),
    };
    let start = odd_position(t, &Position { line: 1, column: 1, bytes: 0, chars: 0 });
    let end = odd_position(t, &start);
    Token { token_type, range: Range(start, end) }
}

fn value(t: &mut Tape) -> TokenType {
    TokenType::Value(match t.below(5) {
        0 => TokenValue::Number(NumberToken::Int(t.u32() as i32)),
        1 => {
            let f = f32::from_bits(t.u32());
            TokenValue::Number(NumberToken::Float(if f.is_nan() { 0.5 } else { f }))
        }
        2 => TokenValue::String(["", "a", "NOOB", ":\"", "é\n"][t.below(5)].to_string()),
        3 => TokenValue::Boolean(t.chance(128)),
        _ => TokenValue::NOOB,
    })
}

// ---- C26 ----------------------------------------------------------------------------------

pub const C26: Property = Property {
    id: "C26",
    cases: 400_000,
    rule: "a hand-made token of any kind and position, and the nodes of one or two parsed programs (damaged programs, loose statements, random words), taken apart and put together in other orders. Non-trivial: the token converts, or a block of at least two nodes is put together",
    assumptions: &[],
    probes: &[],
    check: c26,
};

fn c26(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut rest) = t.split(12);
    let token = any_token(&mut a);
    let order = a.u32();
    let (mut b, mut rest) = rest.split(70);
    let (mut l, mut f) = rest.split(80);
    let (segs, label) = any_segs(&mut b);
    case.label(label);
    let laid = lay(&mut l, &segs);
    case.set_input(&format!("{}\n---- and the token {}", laid.src, show(&token)));
    types(case, &token)?;
    operators(&token)?;
    let tokens = feed(&mut f, case, &laid)?;
    let block = sut::parse(&tokens)?;
    blocks(case, &block, order, tokens.len())
}

fn types(case: &mut Case, token: &Token) -> Res {
    use Keywords::*;
    let expected = match &token.token_type {
        TokenType::Keyword(k) => match k {
            NUMBR => Some("Numbr"),
            NUMBAR => Some("Numbar"),
            YARN => Some("Yarn"),
            NOOB => Some("Noob"),
            BUKKIT => Some("Bukkit"),
            TROOF => Some("Troof"),
            _ => None,
        },
        _ => None,
    };
    let got = guard("converting to a type", 1, || ASTType::try_from(token.clone()))?;
    match (got, expected) {
        (Err(back), None) => unchanged("a token that is no type", token, &back)?,
        (Ok(of), Some(name)) => {
            case.label("type word");
            case.nontrivial = true;
            let got = match &of {
                ASTType::Bukkit(_) => "Bukkit",
                ASTType::Numbr(_) => "Numbr",
                ASTType::Numbar(_) => "Numbar",
                ASTType::Yarn(_) => "Yarn",
                ASTType::Troof(_) => "Troof",
                ASTType::Noob(_) => "Noob",
            };
            if got != name {
                return Err(format!("{} converts to the type {got}", show(token)));
            }
        }
        (Ok(of), None) => return Err(format!("{} converts to {of:?}", show(token)).replace('\n', " ")),
        (Err(_), Some(name)) => return Err(format!("{} does not convert to {name}", show(token))),
    }
    // Types by hand, of any token
    for make in [
        ASTType::Bukkit,
        ASTType::Numbr,
        ASTType::Numbar,
        ASTType::Yarn,
        ASTType::Troof,
        ASTType::Noob,
    ] {
        let of = make(token.clone());
        unchanged("the token of a type", token, guard("token", 1, || of.token())?)?;
        unchanged("a type into its token", token, &guard("into_token", 1, || of.clone().into_token())?)?;
    }
    let got = guard("converting to a value", 1, || ASTExpressionValue::try_from(token.clone()))?;
    match (got, matches!(token.token_type, TokenType::Value(_))) {
        (Err(()), false) => Ok(()),
        (Ok(ASTExpressionValue::LiteralValue(back)), true) => {
            case.label("literal");
            case.nontrivial = true;
            unchanged("a literal", token, &back)
        }
        (got, _) => Err(format!("{} as a value: {got:?}", show(token)).replace('\n', " ")),
    }
}

fn operators(token: &Token) -> Res {
    for make in [
        BinaryOpt::EitherOf,
        BinaryOpt::WonOf,
        BinaryOpt::SumOf,
        BinaryOpt::DiffOf,
        BinaryOpt::ProduktOf,
        BinaryOpt::QuoshuntOf,
        BinaryOpt::ModOf,
        BinaryOpt::BiggrOf,
        BinaryOpt::SmallrOf,
        BinaryOpt::BothSaem,
        BinaryOpt::BothOf,
        BinaryOpt::Diffrint,
    ] {
        let of = make(token.clone());
        unchanged("the token of a binary operator", token, guard("token", 1, || of.token())?)?;
        let back = guard("into_token", 1, || of.into_token())?;
        unchanged("a binary operator into its token", token, &back)?;
    }
    for make in [NaryOpt::AllOf, NaryOpt::Smoosh, NaryOpt::AnyOf] {
        let of = make(token.clone());
        unchanged("the token of a variadic operator", token, guard("token", 1, || of.token())?)?;
        let back = guard("into_token", 1, || of.into_token())?;
        unchanged("a variadic operator into its token", token, &back)?;
    }
    let of = UnaryOpt::Not(token.clone());
    unchanged("the token of NOT", token, guard("token", 1, || of.token())?)?;
    unchanged("NOT into its token", token, &guard("into_token", 1, || of.into_token())?)
}

fn kind(n: &Node) -> std::mem::Discriminant<Node> {
    std::mem::discriminant(n)
}

/// A node of its content
fn rewrap(n: Node) -> Node {
    match n {
        Node::IHasA(x) => Node::from(x),
        Node::Hai(x) => Node::from(x),
        Node::ImInYr(x) => Node::from(x),
        Node::BukkitSetSlot(x) => Node::from(x),
        Node::VariableAssignment(x) => Node::from(x),
        Node::Visible(x) => Node::from(x),
        Node::FoundYr(x) => Node::from(x),
        Node::Wtf(x) => Node::from(x),
        Node::ORly(x) => Node::from(x),
        Node::IIz(x) => Node::from(x),
        Node::HowIzI(x) => Node::from(x),
        Node::Gtfo(x) => Node::from(x),
        Node::Gimmeh(x) => Node::from(x),
        Node::Expression(x) => Node::from(x),
        Node::ASTError(x) => Node::from(x),
        Node::KThxBye(x) => Node::from(x),
    }
}

/// A node of a result that holds it, or of one that holds an error
fn of_result(n: Node) -> Node {
    match n {
        Node::ASTError(e) => Node::from(Err::<ASTExpression, _>(e)),
        Node::Expression(x) => Node::from(Ok(x)),
        Node::Visible(x) => Node::from(Ok(x)),
        n => Node::from(Ok(n)),
    }
}

fn blocks(case: &mut Case, block: &ASTBlock, order: u32, size: usize) -> Res {
    let print = |n: &Node| guard("printing", size, || format!("{n:?}"));
    let nodes: Vec<Node> = block.0.iter().cloned().collect();
    let printed: Vec<String> = nodes.iter().map(print).collect::<Result<_, _>>()?;
    let expect = |what: &str, expected: &[&String], got: &[Node]| -> Res {
        if expected.len() != got.len() {
            return Err(format!("{what}: {} nodes became {}", expected.len(), got.len()));
        }
        for (e, g) in expected.iter().zip(got) {
            let g = print(g)?;
            if *e != &g {
                return Err(format!("{what}: a node became another one: {e} became {g}").replace('\n', " "));
            }
        }
        Ok(())
    };
    let all: Vec<&String> = printed.iter().collect();
    let apart: Vec<Node> = guard("taking a block apart", size, || block.clone().into_iter().collect())?;
    expect("taking a block apart", &all, &apart)?;
    let mut back: Vec<Node> = guard("taking a block apart", size, || block.clone().into_iter().rev().collect())?;
    back.reverse();
    expect("taking a block apart from the end", &all, &back)?;
    if order % 5 == 0 {
        let k = order as usize % (nodes.len() + 2);
        sut::iterator_laws("taking a block apart", nodes.len(), k, || block.clone().into_iter(), |n| format!("{n:?}"))?;
        // From both ends in turn
        let (mut front, mut back): (Vec<Node>, Vec<Node>) = (vec![], vec![]);
        guard("taking a block apart", size, || {
            let mut iter = block.clone().into_iter();
            for i in 0..nodes.len() + 2 {
                if (order >> (i % 32)) & 1 == 0 {
                    front.extend(iter.next());
                } else {
                    back.extend(iter.next_back());
                }
            }
        })?;
        front.extend(back.into_iter().rev());
        expect("taking a block apart from both ends", &all, &front)?;
    }
    let empty = guard("default", 1, || ASTBlock::default())?;
    let none = guard("an empty array", 1, || ASTBlock::from([]))?;
    if !empty.0.is_empty() || !none.0.is_empty() || empty != none || empty.iter_errors().next().is_some() {
        return Err("an empty block is not empty".into());
    }
    if nodes.is_empty() {
        return Ok(());
    }
    // Some nodes in another order
    let pick = |i: u32| (order >> (5 * i)) as usize % nodes.len();
    let chosen: Vec<usize> = (0..4).map(pick).collect();
    let node = |i: usize| nodes[chosen[i]].clone();
    let texts: Vec<&String> = chosen.iter().map(|i| &printed[*i]).collect();
    let put = |n: usize| match n {
        1 => ASTBlock::from([node(0)]),
        2 => ASTBlock::from([node(0), node(1)]),
        3 => ASTBlock::from([node(0), node(1), node(2)]),
        _ => ASTBlock::from([node(0), node(1), node(2), node(3)]),
    };
    for n in 1..=4 {
        let made = guard("putting a block together", size, || put(n))?;
        case.nontrivial |= n >= 2 && nodes.len() >= 2;
        let errors = guard("listing errors", 4 * size, || {
            made.iter_errors().map(|e| format!("{e:?}")).collect::<Vec<_>>()
        })?;
        let mut expected = vec![];
        for i in 0..n {
            let alone = ASTBlock([node(i)].into());
            expected.extend(guard("listing errors", size, || {
                alone.iter_errors().map(|e| format!("{e:?}")).collect::<Vec<_>>()
            })?);
        }
        if errors != expected {
            return Err(format!("a block of {n} nodes lists {} errors, and its nodes {}", errors.len(), expected.len()));
        }
        if !errors.is_empty() {
            case.label("errors in the block");
        }
        let apart: Vec<Node> = guard("taking a block apart", size, || made.into_iter().collect())?;
        expect("putting a block together", &texts[..n], &apart)?;
    }
    // Nodes of what they hold
    for (n, text) in nodes.iter().zip(&printed) {
        for (what, f) in [("a node of its content", rewrap as fn(Node) -> Node), ("a node of a result", of_result)] {
            let got = guard(what, size, || f(n.clone()))?;
            if kind(&got) != kind(n) || &print(&got)? != text {
                return Err(format!("{what} is another node than {text}").replace('\n', " "));
            }
        }
        let Node::Expression(e) = n else { continue };
        let again = guard("an expression of its content", size, || match e.clone() {
            ASTExpression::BinaryOperation(o) => ASTExpression::from(o),
            ASTExpression::UnaryOperation(o) => ASTExpression::from(o),
            ASTExpression::NaryOperation(o) => ASTExpression::from(o),
            ASTExpression::Value(ASTExpressionValue::VariableAccess(v)) => {
                ASTExpression::Value(ASTExpressionValue::from(v))
            }
            e => e,
        })?;
        if format!("{again:?}") != format!("{e:?}") {
            return Err(format!("an expression of its content is another than {text}").replace('\n', " "));
        }
    }
    Ok(())
}

// ---- C27 ----------------------------------------------------------------------------------

pub const C27: Property = Property {
    id: "C27",
    cases: 600_000,
    rule: "two positions, two tokens that differ in nothing or in one detail, and the trees of a program's tokens and of the same tokens with one detail of one token changed (kind, value, line, column, byte, character). Non-trivial: the changed token is in the tree",
    assumptions: &["the sign of a zero is printed but does not count for equality, as usual for floating point", "offsets in bytes and characters are neither printed nor compared, as the crate has it"],
    probes: &[],
    check: c27,
};

/// Changes one detail of a position
fn nudge(t: &mut Tape, p: &mut Position) -> &'static str {
    let d = |t: &mut Tape| *t.pick(&[1, -1, 2, 10, 100, 256, 65536, i32::MIN]);
    let (what, field) = match t.below(4) {
        0 => ("column", &mut p.column),
        1 => ("line", &mut p.line),
        2 => ("byte offset", &mut p.bytes),
        _ => ("character offset", &mut p.chars),
    };
    *field = field.wrapping_add(d(t));
    what
}

/// Changes one detail of a token's kind
fn vary(t: &mut Tape, kind: &mut TokenType) {
    let new = match kind.clone() {
        TokenType::Identifier(s) if t.chance(200) => TokenType::Identifier(reword(t, s)),
        TokenType::Symbol(s) if t.chance(128) => TokenType::Symbol(reword(t, s)),
        TokenType::CommentSingleLine(s) => TokenType::CommentSingleLine(reword(t, s)),
        TokenType::CommentMultiLine(s) => TokenType::CommentMultiLine(reword(t, s)),
        TokenType::Value(TokenValue::String(s)) if t.chance(200) => {
            TokenType::Value(TokenValue::String(reword(t, s)))
        }
        TokenType::Value(TokenValue::Boolean(b)) if t.chance(200) => TokenType::Value(TokenValue::Boolean(!b)),
        TokenType::Value(TokenValue::Number(NumberToken::Int(i))) if t.chance(200) => {
            TokenType::Value(TokenValue::Number(match t.below(3) {
                0 => NumberToken::Int(i.wrapping_add(1)),
                1 => NumberToken::Int(i.wrapping_add(1 << t.below(32))),
                _ => NumberToken::Float(i as f32),
            }))
        }
        TokenType::Value(TokenValue::Number(NumberToken::Float(f))) if t.chance(200) => {
            let g = f32::from_bits(f.to_bits() ^ 1 << t.below(32));
            TokenType::Value(TokenValue::Number(NumberToken::Float(if g.is_nan() { f } else { g })))
        }
        TokenType::Keyword(_) => TokenType::Keyword(t.pick(&all_keywords()).1.clone()),
        _ => match t.chance(128) {
            true => value(t),
            false => any_token_type(t),
        },
    };
    *kind = new;
}

fn reword(t: &mut Tape, mut s: String) -> String {
    match t.below(5) {
        0 => s.push('x'),
        1 => s.push(' '),
        2 => drop(s.pop()),
        3 => s = s.to_lowercase(),
        _ => s = s.chars().rev().collect(),
    }
    s
}

fn equal_kinds(a: &TokenType, b: &TokenType) -> bool {
    let zero = |s: String| if s.contains("Float(-0.0)") { s.replace("-0.0", "0.0") } else { s };
    zero(type_debug(a)) == zero(type_debug(b))
}

fn equal_places(a: &Position, b: &Position) -> bool {
    (a.line, a.column) == (b.line, b.column)
}

fn agree<T: PartialEq>(what: &str, expected: bool, a: &T, b: &T, size: usize) -> Res {
    let got = guard("comparing", size, || (a == b, b == a, a != b, b != a))?;
    match got == (expected, expected, !expected, !expected) {
        true => Ok(()),
        false => Err(format!("{what} should {} equal, and compare as {got:?}", if expected { "be" } else { "not be" })),
    }
}

fn c27(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut rest) = t.split(15);
    let token = any_token(&mut a);
    let mut other = if a.chance(30) { any_token(&mut a) } else { token.clone() };
    match a.below(4) {
        0 => {}
        1 => drop(nudge(&mut a, &mut other.range.0)),
        2 => drop(nudge(&mut a, &mut other.range.1)),
        _ => vary(&mut a, &mut other.token_type),
    }
    let (mut b, mut rest) = rest.split(70);
    let (mut l, mut c) = rest.split(70);
    let (segs, label) = any_segs(&mut b);
    case.label(label);
    let laid = lay(&mut l, &segs);
    case.set_input(&format!("{}\n---- and the tokens {} and {}", laid.src, show(&token), show(&other)));

    // Positions, ranges and tokens
    let mut same_range = true;
    for (p, q) in [(&token.range.0, &other.range.0), (&token.range.1, &other.range.1), (&token.range.0, &token.range.1)] {
        agree("the positions", equal_places(p, q), p, q, 1)?;
    }
    for (p, q) in [(&token.range.0, &other.range.0), (&token.range.1, &other.range.1)] {
        same_range &= equal_places(p, q);
    }
    agree("the ranges", same_range, &token.range, &other.range, 1)?;
    let same_kind = equal_kinds(&token.token_type, &other.token_type);
    agree("the kinds of the tokens", same_kind, &token.token_type, &other.token_type, 1)?;
    agree("the tokens", same_kind && same_range, &token, &other, 1)?;
    let p = token.range.0;
    let shown = guard("printing", 1, || (p.to_string(), format!("{p:?}")))?;
    if shown != (format!("(L{}, C{})", p.line, p.column), format!("({}, {})", p.line, p.column)) {
        return Err(format!("a position at {} is written {shown:?}", show(&token)));
    }
    let copy = guard("cloning", 1, || token.clone())?;
    unchanged("a clone", &token, &copy)?;

    // Trees
    let tokens = feed(&mut c, case, &laid)?;
    if tokens.is_empty() || too_deep(&tokens) {
        return Ok(());
    }
    let mut changed = tokens.clone();
    let at = c.below(tokens.len());
    case.label(match c.below(4) {
        0 => nudge(&mut c, &mut changed[at].range.0),
        1 => nudge(&mut c, &mut changed[at].range.1),
        2 => {
            vary(&mut c, &mut changed[at].token_type);
            "kind"
        }
        _ => "unchanged",
    });
    if too_deep(&changed) {
        return Ok(());
    }
    let one = sut::parse(&tokens)?;
    let two = sut::parse(&changed)?;
    let zero = |s: String| s.replace("Float(-0.0)", "Float(0.0)");
    let size = tokens.len();
    let (p1, p2) = (zero(sut::print(&one, size)?), zero(sut::print(&two, size)?));
    case.nontrivial = p1 != p2;
    agree("the trees", p1 == p2, &one, &two, size)?;
    let copy = guard("cloning", size, || one.clone())?;
    agree("a tree and its clone", true, &one, &copy, size)?;
    if zero(sut::print(&copy, size)?) != p1 {
        return Err("a clone of the tree prints otherwise".into());
    }
    // Node by node
    for (x, y) in one.0.iter().zip(&two.0) {
        let e = zero(guard("printing", size, || format!("{x:?}"))?) == zero(guard("printing", size, || format!("{y:?}"))?);
        agree("the nodes", e, x, y, size)?;
    }
    Ok(())
}
