//! The properties of the parser.

use crate::dict;
use crate::gen::{self, Em};
use crate::layout::{self, layout, Laid, Seg, FREE, PLAIN};
use crate::props::{Case, Probe, Property};
use crate::refparse::{self, cut, word_of};
use crate::reflex;
use crate::sut::{self, guard};
use crate::tape::Tape;
use crate::text::{self, any_text, Focus};
use crate::tree::{self, diff, Index, Tree, TRIVIA};
use crate::words::*;
use lolcode_ast::lexer::{Keywords, NumberToken, Position, Range, Token, TokenType, TokenValue};
use lolcode_ast::parser::expression::{ASTExpression, ASTExpressionValue};
use lolcode_ast::parser::statements::Node;
use lolcode_ast::parser::ASTBlock;

type Res = Result<(), String>;

// ---- Shared pieces ------------------------------------------------------------------------

fn set_input(case: &mut Case, src: &str) {
    case.set_input(src)
}

fn with_input(case: &mut Case, laid: &Laid) {
    set_input(case, &laid.src)
}

/// The statements as a text with its tokens: mostly in the plain layout, often in a free one
pub fn lay(t: &mut Tape, segs: &[Seg]) -> Laid {
    if t.chance(150) {
        layout(segs, t, FREE)
    } else {
        layout::plain(segs)
    }
}

/// The tokens to parse: those the text consists of by construction, or those the tokenizer gives
pub fn feed(t: &mut Tape, case: &mut Case, laid: &Laid) -> Result<Vec<Token>, String> {
    if t.chance(70) {
        case.label("from text");
        sut::tokens(&laid.src)
    } else {
        case.label("from tokens");
        let mut tokens = laid.tokens.clone();
        if t.chance(60) {
            // Made by hand, a question mark can also be a symbol
            for token in tokens.iter_mut() {
                if token.token_type == TokenType::QuestionMark {
                    token.token_type = TokenType::Symbol("?".into());
                }
            }
        }
        if t.chance(40) {
            // And NOOB a keyword; as a value it means the same, but after ITZ it is a type
            let mut itz = false;
            for token in tokens.iter_mut() {
                if token.token_type == TokenType::Value(TokenValue::NOOB) && !itz {
                    token.token_type = TokenType::Keyword(Keywords::NOOB);
                }
                if !is_trivia(&token.token_type) {
                    itz = token.token_type == TokenType::Keyword(Keywords::ITZ);
                }
            }
        }
        if t.chance(40) {
            odd_contents(t, &mut tokens);
        }
        Ok(tokens)
    }
}

/// Contents that no text gives, in tokens that stay names, yarns, numbers and symbols all the same
fn odd_contents(t: &mut Tape, tokens: &mut [Token]) {
    const ODD: &[&str] = &[
        "", "AN", "??", " ?", "? ", "!", "a b", "é", "NOOB", "WIN", "...", ",", "\n", "'Z", "SRS", "MKAY", "OIC", "x",
        "TLDR", "-1", "1.0", "\0", "VISIBLE", "FAIL", "{:?}", "\\", "\"", "HAI", "ITZ", "KTHXBYE", "BTW",
    ];
    let odd = |t: &mut Tape| t.pick(ODD).to_string();
    for token in tokens.iter_mut() {
        if !t.chance(90) {
            continue;
        }
        match &mut token.token_type {
            TokenType::Identifier(s) | TokenType::Value(TokenValue::String(s)) => *s = odd(t),
            TokenType::Symbol(s) if s != "?" => *s = odd(t),
            TokenType::CommentSingleLine(s) | TokenType::CommentMultiLine(s) => *s = odd(t),
            TokenType::Value(TokenValue::Number(NumberToken::Float(v))) => {
                *v = *t.pick(&[f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN, f32::MIN_POSITIVE, 1e-40])
            }
            TokenType::Value(TokenValue::Number(NumberToken::Int(v))) => *v = *t.pick(&[i32::MIN, i32::MAX, -1, 0, 7]),
            _ => {}
        }
    }
}

/// Changes what some of the tokens are, to anything; whether there is a change
fn retype(t: &mut Tape, tokens: &mut [Token]) -> bool {
    let n = tokens.len();
    if n == 0 {
        return false;
    }
    for _ in 0..1 + t.size(90, 3) {
        let i = t.below(n);
        let before = tokens[..i].iter().rev().find(|t| !is_trivia(&t.token_type)).map(|t| &t.token_type);
        let itz = before == Some(&TokenType::Keyword(Keywords::ITZ));
        tokens[i].token_type = match t.below(6) {
            0 => TokenType::Symbol(t.pick(&["??", " ?", "? ", "?", "!?", ""]).to_string()),
            1 => TokenType::Keyword(Keywords::NOOB),
            _ if itz => TokenType::Keyword(Keywords::NOOB),
            2 | 3 => TokenType::Keyword(t.pick(&all_keywords()).1.clone()),
            _ => any_token_type(t),
        };
    }
    true
}

/// The types that follow ITZ become NOOB, which no text gives; whether there is one
fn noob_types(tokens: &mut [Token]) -> bool {
    let (mut itz, mut any) = (false, false);
    for token in tokens.iter_mut().filter(|t| !is_trivia(&t.token_type)) {
        if itz && TYPES.iter().any(|(p, _)| token.token_type == TokenType::Keyword(keyword(p))) {
            token.token_type = TokenType::Keyword(Keywords::NOOB);
            any = true;
        }
        itz = token.token_type == TokenType::Keyword(Keywords::ITZ);
    }
    any
}

fn reference_of(tokens: &[Token]) -> Tree {
    refparse::parse(&refparse::segments(tokens))
}

fn expect(expected: &Tree, got: &Tree) -> Res {
    match diff(expected, got) {
        None => Ok(()),
        Some(d) => Err(format!("the tree is another one, {d}")),
    }
}

fn depth_labels(case: &mut Case, em: &Em) {
    if em.stats.ops > 0 {
        case.label("operations");
    }
    if em.stats.blocks > 0 {
        case.label("blocks");
    }
    if em.stats.empty_bodies > 0 {
        case.label("empty bodies");
    }
    if em.stats.max_args > 7 {
        case.label("long lists");
    }
    if em.segs.len() > 20 {
        case.label("over 20 statements");
    }
}

/// A word that is likely to matter where it does not belong
fn stray(t: &mut Tape) -> W {
    const STRAYS: &[&str] = &[
        "AN", "MKAY", "YR", "ITZ", "R", "HAS A", "SRS", "NOT", "SUM OF", "ALL OF", "SMOOSH", "OIC", "KTHXBYE",
        "GTFO", "O RLY", "WTF", "YA RLY", "NO WAI", "MEBBE", "OMG", "OMGWTF", "IM IN YR", "IM OUTTA YR", "TIL",
        "WILE", "UPPIN", "NERFIN", "HOW IZ I", "IF U SAY SO", "FOUND YR", "I IZ", "VISIBLE", "GIMMEH", "I HAS A",
        "HAI", "NUMBR", "BOTH SAEM", "DIFFRINT", "A", "IS NOW", "MAEK", "TLDR",
    ];
    match t.weighted(&[40, 20, 30]) {
        0 => W::Kw(t.pick(STRAYS)),
        1 => match t.below(4) {
            0 => W::Bang,
            1 => W::Quest,
            2 => W::Slot,
            _ => W::Id(t.pick(&["x", "y", "f", "IZ", "HAS"]).to_string()),
        },
        _ => gen::any_word(t),
    }
}

/// A word that only joins others
fn small(t: &mut Tape) -> W {
    match t.below(12) {
        0 => W::Quest,
        1 => W::Bang,
        2 => W::Slot,
        _ => W::Kw(t.pick(&["AN", "MKAY", "YR", "A", "ITZ", "R", "SRS", "NOT", "TIL", "WILE", "HAS A"])),
    }
}

/// Words that come before the operand of a clause
fn clause(t: &mut Tape) -> Seg {
    const CLAUSES: &[&[&str]] = &[
        &["TIL"], &["WILE"], &["TIL"], &["WILE"], &["UPPIN", "YR"], &["NERFIN", "YR"], &["ITZ"], &["ITZ", "A"],
        &["R"], &["AN"], &["YR"], &["AN", "YR"], &["'Z"], &["HAS A"], &["SRS"], &["IS NOW"], &["MKAY", "AN"], &[],
        &["MKAY"], &["?"], &["!"], &["IM OUTTA YR"], &["OMG"], &["MEBBE"],
    ];
    t.pick(CLAUSES)
        .iter()
        .map(|w| match *w {
            "?" => W::Quest,
            "!" => W::Bang,
            "'Z" => W::Slot,
            k => W::Kw(PHRASES.iter().find(|p| **p == k).unwrap()),
        })
        .collect()
}

/// Damages statements in up to `max` places
fn damage(t: &mut Tape, mut segs: Vec<Seg>, max: usize) -> Vec<Seg> {
    let n = 1 + t.size(110, max.max(1) - 1);
    for _ in 0..n {
        segs.retain(|s| !s.is_empty());
        if segs.is_empty() {
            break;
        }
        let i = t.below(segs.len());
        let k = t.below(segs[i].len());
        match t.weighted(&[26, 26, 22, 8, 8, 6, 6, 6, 6, 6, 4, 12, 14, 8, 10]) {
            13 => {
                // A part once more, there or at the end
                let k = t.below(segs[i].len());
                let n = 1 + t.below(4.min(segs[i].len() - k));
                let part = segs[i][k..k + n].to_vec();
                let at = if t.chance(160) { k + n } else { segs[i].len() };
                segs[i].splice(at..at, part);
            }
            14 => {
                // A clause of some statement
                let mut part = clause(t);
                if t.chance(200) {
                    let mut em = Em::new();
                    gen::any_expr(&mut em, t, false);
                    part.extend(em.segs.remove(0));
                }
                let k = t.below(segs[i].len() + 1);
                let at = if t.chance(128) { k } else { segs[i].len() };
                segs[i].splice(at..at, part);
            }
            12 => {
                // A small word in the middle
                let k = t.below(segs[i].len() + 1);
                segs[i].insert(k, small(t));
            }
            11 => {
                // Something more at the end, after what looks complete; of a block word, if any
                let blocks: Vec<usize> = (0..segs.len()).filter(|i| block_word(&segs[*i]).is_some()).collect();
                let i = if blocks.is_empty() || t.chance(100) { i } else { *t.pick(&blocks) };
                let w = match t.below(8) {
                    0 | 1 => W::Quest,
                    2 => W::Bang,
                    3 => segs[i].last().unwrap().clone(),
                    4 => segs[i][0].clone(),
                    5 => small(t),
                    6 => W::Id(t.pick(&["x", "y", "f"]).to_string()),
                    _ => stray(t),
                };
                if t.chance(4) {
                    let n = dict::count(t, 300).unwrap_or(1);
                    segs[i].extend(std::iter::repeat(w.clone()).take(n - 1));
                }
                segs[i].push(w);
            }
            0 => {
                segs[i].remove(k);
            }
            1 => {
                let w = stray(t);
                let k = t.below(segs[i].len() + 1);
                segs[i].insert(k, w);
            }
            2 => segs[i][k] = stray(t),
            3 => {
                let j = t.below(segs[i].len());
                segs[i].swap(k, j);
            }
            4 => {
                let w = segs[i][k].clone();
                segs[i].insert(k, w);
            }
            5 => {
                segs.remove(i);
            }
            6 => {
                let s = segs[i].clone();
                segs.insert(i, s);
            }
            7 => {
                let j = t.below(segs.len());
                segs.swap(i, j);
            }
            8 => {
                if i + 1 < segs.len() {
                    let next = segs.remove(i + 1);
                    segs[i].extend(next);
                }
            }
            9 => {
                let rest = segs[i].split_off(k);
                segs.insert(i + 1, rest);
            }
            _ => {
                segs[i].truncate(k);
                segs.truncate(i + 1);
            }
        }
    }
    segs.retain(|s| !s.is_empty());
    segs
}

fn damaged_program(t: &mut Tape, max: usize) -> Vec<Seg> {
    let (mut a, mut b) = t.split(65);
    let (em, _) = gen::program(&mut a);
    damage(&mut b, em.segs, max)
}

/// A statement that starts as one of the known forms, and goes on with anything
fn loose(t: &mut Tape) -> Seg {
    const STARTS: &[&[&str]] = &[
        &["VISIBLE"], &["I HAS A"], &["I HAS A", "x"], &["I HAS A", "x", "ITZ"], &["x"], &["x", "R"],
        &["x", "HAS A"], &["x", "HAS A", "y"], &["x", "HAS A", "y", "ITZ"], &["GIMMEH"], &["FOUND YR"], &["GTFO"],
        &["I IZ"], &["I IZ", "f"], &["I IZ", "f", "YR"], &["I IZ", "f", "YR", "x", "AN"],
        &["I IZ", "f", "YR", "x", "AN", "YR"], &["KTHXBYE"], &["SUM OF"], &["SUM OF", "x"],
        &["SUM OF", "x", "AN"], &["NOT"], &["ALL OF"], &["ALL OF", "x"], &["ALL OF", "x", "AN"], &["SMOOSH", "x", "MKAY"],
        &["O RLY"], &["O RLY", "?"], &["WTF"], &["WTF", "?"], &["IM IN YR"], &["IM IN YR", "x"],
        &["IM IN YR", "x", "UPPIN"], &["IM IN YR", "x", "UPPIN", "YR"], &["IM IN YR", "x", "NERFIN", "YR", "y"],
        &["IM IN YR", "x", "NERFIN", "YR", "y", "TIL"], &["IM IN YR", "x", "WILE"], &["HOW IZ I"],
        &["HOW IZ I", "f"], &["HOW IZ I", "f", "YR"], &["HOW IZ I", "f", "YR", "x", "AN"],
        &["HOW IZ I", "f", "YR", "x", "AN", "YR"], &["SRS"], &["SRS", "x"], &["x", "'Z"], &["x", "'Z", "SRS"], &["HAI"],
    ];
    let mut seg: Seg = t
        .pick(STARTS)
        .iter()
        .map(|w| match *w {
            "x" | "y" | "f" => W::Id(w.to_string()),
            "?" => W::Quest,
            "'Z" => W::Slot,
            k => W::Kw(PHRASES.iter().find(|p| **p == k).unwrap()),
        })
        .collect();
    if t.chance(128) {
        let mut em = Em::new();
        gen::any_expr(&mut em, t, true);
        seg.extend(em.segs.remove(0));
    }
    for _ in 0..t.size(120, 6) {
        seg.push(stray(t));
    }
    seg
}

/// Statements of any kind: damaged programs, loose ones, and words at random
pub fn any_segs(t: &mut Tape) -> (Vec<Seg>, &'static str) {
    match t.weighted(&[60, 30, 20, 12]) {
        0 => (damaged_program(t, 5), "damaged program"),
        1 => {
            let mut segs = vec![];
            for _ in 0..1 + t.size(150, 6) {
                segs.push(loose(t));
            }
            (segs, "loose statements")
        }
        2 => {
            let mut segs = vec![];
            for _ in 0..1 + t.size(170, 12) {
                let mut s = vec![];
                for _ in 0..1 + t.size(160, 12) {
                    s.push(stray(t));
                }
                segs.push(s);
            }
            (segs, "random words")
        }
        _ => {
            let (em, _) = gen::program(t);
            (em.segs, "program")
        }
    }
}

/// Number of the first word of each statement
fn firsts(segs: &[Seg]) -> Vec<usize> {
    let mut n = 0;
    segs.iter()
        .map(|s| {
            n += s.len();
            n - s.len()
        })
        .collect()
}

/// The error nodes, in source order
fn ordered_errors<'a>(tree: &'a Tree, out: &mut Vec<&'a Tree>) -> Res {
    if tree.is_error() {
        out.push(tree);
        return Ok(());
    }
    match tree {
        Tree::S(name, f) => {
            let order: Vec<&str> = match &name[..] {
                "ORly" => vec!["if_true", "mebbes", "if_false"],
                "Wtf" => vec!["omg", "omg_wtf"],
                _ => f.keys().map(|k| &k[..]).collect(),
            };
            for k in order {
                ordered_errors(tree.get(k)?, out)?;
            }
        }
        Tree::T(_, v) | Tree::L(v) => {
            for x in v {
                ordered_errors(x, out)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// Whether tokens that nobody arranged may nest deeper than the stack allows (parsing is recursive,
/// see the known finding), by a bound that is easy to compute
pub fn too_deep(tokens: &[Token]) -> bool {
    use lolcode_ast::lexer::Keywords::*;
    let (mut blocks, mut line, mut worst) = (0, 0, 0);
    let joined = tokens.iter().any(|t| t.token_type == TokenType::Ellipsis);
    for (i, t) in tokens.iter().enumerate() {
        let next = i > 0 && tokens[i - 1].range.1.line != t.range.0.line;
        if (next || t.token_type == TokenType::Comma) && !joined {
            line = 0;
        }
        match &t.token_type {
            TokenType::Keyword(O_RLY | WTF | IM_IN_YR | HOW_IZ_I) => blocks += 1,
            TokenType::Keyword(
                SRS | SUM_OF | DIFF_OF | PRODUKT_OF | QUOSHUNT_OF | MOD_OF | BIGGR_OF | SMALLR_OF
                | BOTH_SAEM | BOTH_OF | EITHER_OF | WON_OF | NOT | ALL_OF | ANY_OF | DIFFRINT | SMOOSH
                | MAEK | I_IZ,
            )
            | TokenType::BukkitSlotAccess => {
                line += 1;
                worst = worst.max(line);
            }
            _ => {}
        }
    }
    blocks > 400 || worst > 1000
}

fn has_errors(tree: &Tree) -> bool {
    let mut e = vec![];
    tree.errors(&mut e);
    !e.is_empty()
}

// ---- C11 ----------------------------------------------------------------------------------

pub const C11: Property = Property {
    id: "C11",
    cases: 300_000,
    rule: "a token sequence: damaged programs, loose statements and random words in any layout, tokens of any text, hand-made tokens at arbitrary positions, deep nests (up to 300), long lists. Non-trivial: at least four tokens, and at least one error in the reference parser's tree",
    assumptions: &["a call that executes 20 million + 100000 per token branches, or allocates 64 MB + 256 KB per token, runs away"],
    probes: &[Probe {
        key: "deep-nesting",
        what: "an expression of 200000 nested NOT overflows the stack of the recursive-descent parser",
    }],
    check: c11,
};

pub fn odd_position(t: &mut Tape, previous: &Position) -> Position {
    let n = |t: &mut Tape| match t.weighted(&[30, 10, 6, 3]) {
        0 => t.below(5) as i32,
        1 => t.below(500) as i32,
        2 => -(t.below(4) as i32),
        _ => *t.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, 0, -1]),
    };
    let mut p = *previous;
    match t.weighted(&[40, 20, 10]) {
        0 => {}
        1 => p.line = p.line.saturating_add(1),
        _ => p.line = n(t),
    }
    p.column = n(t);
    p.bytes = n(t);
    p.chars = n(t);
    p
}

/// Not so far out that arithmetic overflows
fn mild(mut p: Position) -> Position {
    for n in [&mut p.line, &mut p.column, &mut p.bytes, &mut p.chars] {
        *n %= 100_000;
    }
    p
}

pub fn any_token_type(t: &mut Tape) -> TokenType {
    match t.weighted(&[80, 12, 8, 6, 6, 6, 6]) {
        1 => TokenType::Comma,
        2 => TokenType::Ellipsis,
        3 => TokenType::CommentSingleLine(" c".into()),
        4 => TokenType::CommentMultiLine("\nc\n".into()),
        5 => {
            // Keywords that no text gives
            let (_, k) = t.pick(&all_keywords()).clone();
            TokenType::Keyword(k)
        }
        6 => match t.below(9) {
            // Contents that no text gives
            0 => TokenType::Identifier(String::new()),
            1 => TokenType::Identifier("é x".into()),
            2 => TokenType::Identifier("AN".into()),
            3 => TokenType::Symbol(String::new()),
            4 => TokenType::Symbol("??".into()),
            5 => TokenType::Symbol("?".into()),
            6 => TokenType::CommentSingleLine(String::new()),
            7 => TokenType::Value(TokenValue::String("x".repeat(dict::count(t, 5000).unwrap_or(t.below(300))))),
            _ => TokenType::Value(TokenValue::Number(NumberToken::Float(f32::INFINITY))),
        },
        _ => stray(t).token_type(),
    }
}

fn deep(t: &mut Tape) -> Vec<Seg> {
    let n = 40 + t.below(260);
    let one = |w: &'static str| -> Seg { vec![W::Kw(w)] };
    let x = || W::Id("x".into());
    let mut close: Vec<Seg> = vec![];
    let mut segs: Vec<Seg> = vec![];
    match t.below(9) {
        0 => segs.push((0..n).map(|_| W::Kw("NOT")).chain([x()]).collect()),
        1 => segs.push((0..n).map(|_| W::Kw("SUM OF")).chain([x()]).collect()),
        2 => segs.push((0..n).map(|_| W::Kw("ALL OF")).chain([x()]).collect()),
        3 => segs.push((0..n).flat_map(|_| [x(), W::Slot]).chain([x()]).collect()),
        4 => segs.push([W::Kw("I IZ"), x()].into_iter().chain((0..n).flat_map(|_| [W::Kw("YR"), x(), W::Kw("AN")])).collect()),
        5 => segs.push([W::Kw("VISIBLE")].into_iter().chain((0..n).map(|_| x())).collect()),
        k => {
            for _ in 0..n {
                match (k + t.below(2)) % 4 {
                    0 => {
                        segs.push(vec![W::Kw("O RLY"), W::Quest]);
                        segs.push(one(if t.chance(128) { "YA RLY" } else { "NO WAI" }));
                        close.push(one("OIC"));
                    }
                    1 => {
                        segs.push(vec![W::Kw("WTF"), W::Quest]);
                        segs.push(one("OMGWTF"));
                        close.push(one("OIC"));
                    }
                    2 => {
                        segs.push(vec![W::Kw("IM IN YR"), x()]);
                        close.push(vec![W::Kw("IM OUTTA YR"), x()]);
                    }
                    _ => {
                        segs.push(vec![W::Kw("HOW IZ I"), x()]);
                        close.push(one("IF U SAY SO"));
                    }
                }
            }
            if t.chance(128) {
                close.truncate(t.below(n));
            }
            segs.extend(close.into_iter().rev());
        }
    }
    if t.chance(128) {
        segs = damage(t, segs, 2);
    }
    segs
}

fn c11(t: &mut Tape, case: &mut Case) -> Res {
    let tokens: Vec<Token> = match t.weighted(&[60, 40, 40, 1]) {
        0 => {
            let (mut a, mut b) = t.split(75);
            let (segs, label) = any_segs(&mut a);
            case.label(label);
            lay(&mut b, &segs).tokens
        }
        1 => {
            case.label("hand-made tokens");
            let mut p = Position::default();
            let mut out = vec![];
            for _ in 0..t.size(235, 120) {
                let token_type = any_token_type(t);
                let start = odd_position(t, &p);
                let end = odd_position(t, &start);
                out.push(Token { token_type, range: Range(start, end) });
                p = end;
            }
            out
        }
        2 => {
            let (src, _) = any_text(t, Focus::Any);
            case.label("tokens of a text");
            set_input(case, &src);
            match sut::tokenize(&src)? {
                Ok(tokens) if too_deep(&tokens) => {
                    case.label("skipped: may nest too deep");
                    return Ok(());
                }
                Ok(tokens) => tokens,
                Err(_) => return Ok(()),
            }
        }
        _ => {
            case.label("deep");
            let segs = deep(t);
            layout::plain(&segs).tokens
        }
    };
    case.input = describe(&tokens);
    let block = sut::parse(&tokens)?;
    let printed = sut::print(&block, tokens.len())?;
    guard("listing the errors", tokens.len(), || block.iter_errors().count())?;
    let numbers = tree::significant(&tokens);
    let tree = tree::read(&printed, &Index::new(&tokens, |i| numbers[i]))?;
    let reference = refparse::parse(&refparse::segments(&tokens));
    let malformed = has_errors(&reference);
    case.nontrivial = tokens.len() >= 4 && malformed;
    if malformed && !has_errors(&tree) {
        return Err("the input is malformed, and the tree holds no error".into());
    }
    Ok(())
}

fn describe(tokens: &[Token]) -> String {
    let mut out = String::new();
    for t in tokens.iter().take(400) {
        let words = match &t.token_type {
            TokenType::Comma => ",".into(),
            TokenType::Ellipsis => "...".into(),
            TokenType::CommentSingleLine(c) => format!("BTW{c}"),
            TokenType::CommentMultiLine(c) => format!("OBTW{c}TLDR"),
            other => word_of(other).text(),
        };
        out.push_str(&format!("{:?}-{:?} {words:?}; ", t.range.0, t.range.1));
    }
    if tokens.len() > 400 {
        out.push_str(&format!("... ({} tokens)", tokens.len()));
    }
    out
}

// ---- C12 ----------------------------------------------------------------------------------

pub const C12: Property = Property {
    id: "C12",
    cases: 450_000,
    rule: "expressions (depth up to 8, chains up to 60, variadic operations of up to 50 operands, each optional word there or not) in every place of every statement that takes one, in any layout. Non-trivial: at least two operations",
    assumptions: &[],
    probes: &[],
    check: c12,
};

fn c12(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut b) = t.split(75);
    let mut em = Em::new();
    let mut nodes = vec![];
    for _ in 0..1 + a.size(80, 4) {
        nodes.push(match a.weighted(&[40, 14, 14, 14, 14, 14, 14, 10, 10, 10]) {
            0 => gen::simple(&mut em, &mut a, 10),
            1 => gen::simple(&mut em, &mut a, 0),
            2 => gen::simple(&mut em, &mut a, 1),
            3 => gen::simple(&mut em, &mut a, 2),
            4 => gen::simple(&mut em, &mut a, 3),
            5 => gen::simple(&mut em, &mut a, 5),
            6 => gen::simple(&mut em, &mut a, 7),
            7 => gen::block_stmt(&mut em, &mut a, 0, 0),
            8 => gen::block_stmt(&mut em, &mut a, 0, 1),
            _ => gen::block_stmt(&mut em, &mut a, 0, 2),
        });
    }
    case.nontrivial = em.stats.ops >= 2;
    depth_labels(case, &em);
    whole(&mut b, case, &em, &tree::block(nodes))
}

/// Lays the statements out, parses them, and compares with the tree they denote
fn whole(t: &mut Tape, case: &mut Case, em: &Em, expected: &Tree) -> Res {
    let (mut l, mut f) = t.split(90);
    let laid = lay(&mut l, &em.segs);
    with_input(case, &laid);
    let mut tokens = feed(&mut f, case, &laid)?;
    if f.chance(25) && noob_types(&mut tokens) {
        case.label("NOOB as a type");
        let (_, tree) = sut::parse_tree(&tokens)?;
        return expect(&reference_of(&tokens), &tree);
    }
    let (_, tree) = sut::parse_tree(&tokens)?;
    expect(expected, &tree)
}

// ---- C13 ----------------------------------------------------------------------------------

pub const C13: Property = Property {
    id: "C13",
    cases: 900_000,
    rule: "expression statements, with or without excess words after them, in any layout. Non-trivial: an expression of at least three tokens",
    assumptions: &["only expressions that are statements of their own give access to their tokens from outside the crate"],
    probes: &[],
    check: c13,
};

pub fn same_position(a: &Position, b: &Position) -> bool {
    (a.line, a.column, a.bytes, a.chars) == (b.line, b.column, b.bytes, b.chars)
}

fn check_tokens<'a, I: Iterator<Item = &'a Token>>(
    expected: &[&Token],
    make: impl Fn() -> I,
    range: (Position, Position),
    asked: usize,
) -> Res {
    let n = expected.len();
    let mut got = make();
    for i in 0..n + 4 {
        let token = guard("listing the tokens", n, || got.next())?;
        match (expected.get(i), token) {
            (None, None) => {}
            (Some(e), Some(g)) => {
                let equal = type_debug(&e.token_type) == type_debug(&g.token_type)
                    && same_position(&e.range.0, &g.range.0)
                    && same_position(&e.range.1, &g.range.1);
                if !equal {
                    return Err(format!("listed token {i} is {g:?} and should be {e:?}").replace('\n', " "));
                }
            }
            (Some(e), None) => {
                return Err(format!("the listing ends after {i} tokens, before {e:?}").replace('\n', " "))
            }
            (None, Some(g)) => {
                return Err(format!("the listing goes on after {n} tokens, with {g:?}").replace('\n', " "))
            }
        }
    }
    if asked < 2 * n + 4 {
        sut::iterator_laws("listing the tokens", n, asked, &make, |t| format!("{t:?} {}", all_fields(t)))?;
    }
    let (a, b) = (&expected[0].range.0, &expected[n - 1].range.1);
    if !same_position(a, &range.0) || !same_position(b, &range.1) {
        let f = |p: &Position| format!("L{} C{} byte {} char {}", p.line, p.column, p.bytes, p.chars);
        return Err(format!(
            "the range is {} to {} and should be {} to {}",
            f(&range.0),
            f(&range.1),
            f(a),
            f(b)
        ));
    }
    Ok(())
}

fn c13(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut b) = t.split(75);
    let mut em = Em::new();
    let mut nodes = vec![];
    for _ in 0..1 + a.size(80, 4) {
        nodes.push(gen::simple(&mut em, &mut a, 10));
    }
    let mut segs = em.segs;
    let mut expected = tree::block(nodes);
    if a.chance(60) {
        // What the expressions are then follows from the reference
        case.label("with excess words");
        for seg in segs.iter_mut() {
            if a.chance(128) {
                let w = stray(&mut a);
                seg.push(w);
            }
        }
        expected = refparse::parse(&segs);
    }
    let (mut l, mut f) = b.split(90);
    let laid = lay(&mut l, &segs);
    with_input(case, &laid);
    let tokens = feed(&mut f, case, &laid)?;
    let significant: Vec<&Token> = tokens.iter().filter(|t| !is_trivia(&t.token_type)).collect();
    let block = sut::parse(&tokens)?;
    let nodes = expected.nodes()?;
    if nodes.len() != block.0.len() {
        return Err(format!("{} nodes instead of {}", block.0.len(), nodes.len()));
    }
    for (e, node) in nodes.iter().zip(&block.0) {
        let (true, Node::Expression(expr)) = (e.name() == "Expression", node) else {
            if (e.name() == "Expression") != matches!(node, Node::Expression(_)) {
                return Err(format!("another node than {}", e.show()));
            }
            continue;
        };
        let mut list = vec![];
        e.tokens(&mut list);
        list.sort();
        case.nontrivial |= list.len() >= 3;
        let list: Vec<&Token> = list
            .into_iter()
            .map(|i| significant.get(i).copied().ok_or("a token less than expected"))
            .collect::<Result<_, _>>()?;
        let at = |r: (&Position, &Position)| (*r.0, *r.1);
        // Sometimes asked for by number, too
        let asked = if f.chance(60) { f.below(list.len() + 2) } else { usize::MAX };
        let range = guard("range", list.len(), || at(expr.range()))?;
        check_tokens(&list, || expr.tokens(), range, asked)?;
        match expr {
            ASTExpression::Value(v) => {
                let range = guard("range", list.len(), || at(v.range()))?;
                check_tokens(&list, || v.tokens(), range, asked)?;
                if let ASTExpressionValue::VariableAccess(v) = v {
                    case.label("variable access");
                    let range = guard("range", list.len(), || at(v.range()))?;
                    check_tokens(&list, || v.tokens(), range, asked)?;
                }
            }
            ASTExpression::BinaryOperation(o) => check_tokens(&list, || o.tokens(), range, asked)?,
            ASTExpression::UnaryOperation(o) => check_tokens(&list, || o.tokens(), range, asked)?,
            ASTExpression::NaryOperation(o) => {
                case.label("variadic");
                check_tokens(&list, || o.tokens(), range, asked)?
            }
        }
    }
    Ok(())
}

// ---- C14 and C15 --------------------------------------------------------------------------

pub const C14: Property = Property {
    id: "C14",
    cases: 330_000,
    rule: "sequences of well-formed simple statements of all eleven kinds, in any layout. Non-trivial: at least two statements, or one of at least five words",
    assumptions: &[],
    probes: &[],
    check: |t, case| {
        let (mut a, mut b) = t.split(70);
        let mut em = Em::new();
        let n = match a.weighted(&[60, 40, 1]) {
            0 => 1 + a.below(3),
            1 => 3 + a.below(8),
            _ => 60 + a.below(300),
        };
        let mut nodes = vec![];
        for _ in 0..n {
            let kind = a.below(11);
            case.label(gen::SIMPLE_KINDS[kind]);
            nodes.push(gen::simple(&mut em, &mut a, kind));
        }
        case.nontrivial = n >= 2 || em.n >= 5;
        whole(&mut b, case, &em, &tree::block(nodes))
    },
};

pub const C15: Property = Property {
    id: "C15",
    cases: 300_000,
    rule: "well-formed programs of nested conditionals, switches, loops and functions (nesting up to 9, towers up to 200), in any layout. Non-trivial: at least two blocks",
    assumptions: &[],
    probes: &[],
    check: |t, case| {
        let (mut a, mut b) = t.split(75);
        let (em, tree) = match a.weighted(&[60, 60, 4]) {
            0 => {
                let mut em = Em::new();
                let depth = a.below(3);
                let mut nodes = vec![];
                for _ in 0..1 + a.below(3) {
                    let kind = a.below(4);
                    nodes.push(gen::block_stmt(&mut em, &mut a, depth, kind));
                    if a.chance(128) {
                        nodes.push(gen::any_simple(&mut em, &mut a));
                    }
                }
                (em, tree::block(nodes))
            }
            1 => gen::program(&mut a),
            _ => {
                case.label("tower");
                let h = if a.chance(20) { 1 + a.below(330) } else { 1 + a.below(30) };
                gen::tower(&mut a, h)
            }
        };
        depth_labels(case, &em);
        case.nontrivial = em.stats.blocks >= 2;
        whole(&mut b, case, &em, &tree)
    },
};

// ---- C16 ----------------------------------------------------------------------------------

pub const C16: Property = Property {
    id: "C16",
    cases: 330_000,
    rule: "two layouts of the statements of one program, well-formed or damaged: the first plain or free, the second free (newlines of both styles, commas, repeated separators, blank lines, indentation, ellipses, comments of both kinds). Non-trivial: the layouts differ and one holds a comment, comma or ellipsis",
    assumptions: &["within a statement a comment of several lines ends it, like its newlines do, and is not placed there"],
    probes: &[],
    check: |t, case| {
        let (mut a, mut rest) = t.split(45);
        let (mut b, mut c) = rest.split(50);
        let segs = if a.chance(60) {
            case.label("damaged");
            any_segs(&mut a).0
        } else {
            case.label("well-formed");
            gen::program(&mut a).0.segs
        };
        let one = if c.chance(128) { layout::plain(&segs) } else { layout(&segs, &mut c, FREE) };
        let two = layout(&segs, &mut b, FREE);
        set_input(case, &format!("{}\n---- the same statements:\n{}", one.src, two.src));
        let trivia = two.tokens.len() + one.tokens.len() - 2 * segs.iter().map(|s| s.len()).sum::<usize>();
        case.nontrivial = one.src != two.src && trivia > 0;
        let (_, first) = sut::parse_tree(&sut::tokens(&one.src)?)?;
        let (_, second) = sut::parse_tree(&sut::tokens(&two.src)?)?;
        match diff(&first, &second) {
            None => Ok(()),
            Some(d) => Err(format!("the trees differ, {d}")),
        }
    },
};

// ---- C17 ----------------------------------------------------------------------------------

pub const C17: Property = Property {
    id: "C17",
    cases: 600_000,
    rule: "damaged programs, loose statements, random words and programs, in any layout, some with tokens replaced by ones that no text gives. Non-trivial: the tree holds no error, and the input has at least three words",
    assumptions: &["AN after the last parameter or argument, and a missing AN, are accepted without an error, as the crate has it"],
    probes: &[],
    check: c17,
};

enum Pat {
    /// This very token
    Exact(usize),
    /// A token that the tree does not keep
    Kw(&'static str),
    Quest,
    /// An AN the tree does not keep, or nothing
    OptAn,
}

#[derive(Default)]
struct Unparse {
    segs: Vec<Vec<Pat>>,
    open: bool,
}

impl Unparse {
    fn put(&mut self, p: Pat) {
        if !self.open {
            self.segs.push(vec![]);
            self.open = true;
        }
        self.segs.last_mut().unwrap().push(p);
    }
    fn exact(&mut self, t: &Tree) -> Res {
        let i = t.tok()?;
        self.put(Pat::Exact(i));
        Ok(())
    }
    fn kw(&mut self, k: &'static str) {
        self.put(Pat::Kw(k))
    }
    fn end(&mut self) {
        self.open = false;
    }
    fn block(&mut self, b: &Tree) -> Res {
        for n in b.nodes()? {
            self.node(n)?;
        }
        Ok(())
    }
    fn identifier(&mut self, t: &Tree) -> Res {
        if let Some(srs) = t.get("srs")?.option()? {
            self.exact(srs)?;
        }
        self.exact(t.get("name")?)
    }
    fn access(&mut self, t: &Tree) -> Res {
        self.identifier(t.get("identifier")?)?;
        for a in t.get("accesses")?.list()? {
            self.exact(a.get("slot_access_token")?)?;
            self.identifier(a.get("identifier")?)?;
        }
        Ok(())
    }
    fn expression(&mut self, t: &Tree) -> Res {
        match t.name() {
            "Value" => {
                let v = t.inner()?;
                match v.name() {
                    "LiteralValue" => self.exact(v.inner()?),
                    "VariableAccess" => self.access(v.inner()?),
                    _ => Err(format!("no value: {}", v.show())),
                }
            }
            "BinaryOperation" => {
                let o = t.inner()?;
                self.exact(o.get("operator")?.inner()?)?;
                self.expression(o.get("left")?)?;
                if let Some(an) = o.get("an_token")?.option()? {
                    self.exact(an)?;
                }
                self.expression(o.get("right")?)
            }
            "UnaryOperation" => {
                let o = t.inner()?;
                self.exact(o.get("operator")?.inner()?)?;
                self.expression(o.get("expression")?)
            }
            "NaryOperation" => {
                let o = t.inner()?;
                self.exact(o.get("operator")?.inner()?)?;
                for e in o.get("expressions")?.list()? {
                    self.expression(e.get("operand")?)?;
                    if let Some(an) = e.get("an_token")?.option()? {
                        self.exact(an)?;
                    }
                }
                if let Some(m) = o.get("mkay_token")?.option()? {
                    self.exact(m)?;
                }
                Ok(())
            }
            _ => Err(format!("no expression: {}", t.show())),
        }
    }
    fn node(&mut self, node: &Tree) -> Res {
        let n = node.inner()?;
        match node.name() {
            "Visible" => {
                self.exact(n.get("visible_token")?)?;
                for e in n.get("expressions")?.list()? {
                    self.expression(e)?;
                }
                if let Some(b) = n.get("exclamation_mark")?.option()? {
                    self.exact(b)?;
                }
            }
            "IHasA" => {
                self.exact(n.get("i_has_a_token")?)?;
                self.identifier(n.get("identifier")?)?;
                if let Some(v) = n.get("initial_value")?.option()? {
                    self.kw("ITZ");
                    match v.name() {
                        "Expression" => self.expression(v.inner()?)?,
                        _ => self.exact(v.inner()?.inner()?)?,
                    }
                }
            }
            "VariableAssignment" => {
                self.access(n.get("variable_access")?)?;
                self.exact(n.get("r_token")?)?;
                self.expression(n.get("expression")?)?;
            }
            "BukkitSetSlot" => {
                self.access(n.get("bukkit")?)?;
                self.kw("HAS A");
                self.identifier(n.get("slot_name")?)?;
                self.kw("ITZ");
                self.expression(n.get("value")?)?;
            }
            "Gimmeh" => {
                self.exact(n.get("gimmeh_token")?)?;
                self.access(n.get("variable_access")?)?;
            }
            "FoundYr" => {
                self.exact(n.get("found_yr_token")?)?;
                self.expression(n.get("expression")?)?;
            }
            "Gtfo" => self.exact(n.get("gtfo_token")?)?,
            "KThxBye" => self.exact(n.get("k_thx_bye_token")?)?,
            "Hai" => {
                self.exact(n.get("hai_token")?)?;
                for v in n.get("version")?.list()? {
                    self.exact(v)?;
                }
            }
            "IIz" => {
                self.exact(n.get("i_iz_token")?)?;
                self.access(n.get("name")?)?;
                let args = n.get("arguments")?.list()?;
                for (i, a) in args.iter().enumerate() {
                    self.kw("YR");
                    self.expression(a)?;
                    if i + 1 < args.len() {
                        self.kw("AN");
                    } else {
                        self.put(Pat::OptAn);
                    }
                }
                self.kw("MKAY");
            }
            "Expression" => self.expression(n)?,
            "ORly" => {
                self.exact(n.get("o_rly_token")?)?;
                self.put(Pat::Quest);
                self.end();
                if let Some(b) = n.get("if_true")?.option()? {
                    self.exact(b.get("ya_rly_token")?)?;
                    self.end();
                    self.block(b.get("block")?)?;
                }
                for m in n.get("mebbes")?.list()? {
                    self.exact(m.get("mebbe_token")?)?;
                    self.expression(m.get("condition")?)?;
                    self.end();
                    self.block(m.get("block")?)?;
                }
                if let Some(b) = n.get("if_false")?.option()? {
                    self.exact(b.get("no_wai_token")?)?;
                    self.end();
                    self.block(b.get("block")?)?;
                }
                self.kw("OIC");
            }
            "Wtf" => {
                self.exact(n.get("wtf_token")?)?;
                self.put(Pat::Quest);
                self.end();
                for m in n.get("omg")?.list()? {
                    self.exact(m.get("omg_token")?)?;
                    self.expression(m.get("expression")?)?;
                    self.end();
                    self.block(m.get("block")?)?;
                }
                if let Some(b) = n.get("omg_wtf")?.option()? {
                    self.exact(b.get("omg_wtf_token")?)?;
                    self.end();
                    self.block(b.get("block")?)?;
                }
                self.kw("OIC");
            }
            "ImInYr" => {
                self.exact(n.get("im_in_yr_token")?)?;
                self.exact(n.get("label")?)?;
                if let Some(o) = n.get("on_iteration")?.option()? {
                    self.exact(o.get("operation")?.inner()?)?;
                    self.kw("YR");
                    self.access(o.get("operand")?)?;
                }
                if let Some(c) = n.get("condition")?.option()? {
                    self.kw(if c.name() == "Til" || c.name() == "TIL" { "TIL" } else { "WILE" });
                    self.expression(c.inner()?)?;
                }
                self.end();
                self.block(n.get("code_block")?)?;
                self.kw("IM OUTTA YR");
                self.exact(n.get("end_label")?)?;
            }
            "HowIzI" => {
                self.exact(n.get("how_iz_i_token")?)?;
                self.identifier(n.get("name")?)?;
                let args = n.get("arguments")?.list()?;
                for (i, a) in args.iter().enumerate() {
                    self.kw("YR");
                    self.identifier(a)?;
                    if i + 1 < args.len() {
                        self.kw("AN");
                    } else {
                        self.put(Pat::OptAn);
                    }
                }
                self.end();
                self.block(n.get("body")?)?;
                self.kw("IF U SAY SO");
            }
            _ => return Err(format!("no node: {}", node.show())),
        }
        self.end();
        Ok(())
    }
}

/// Names in the tree that say which keyword a token is
fn check_roles(tree: &Tree, words: &[W]) -> Res {
    fn role(name: &str) -> Option<&'static str> {
        BINARY
            .iter()
            .chain(NARY)
            .chain(TYPES)
            .chain(&[("UPPIN", "UPPIN"), ("NERFIN", "NERFIN"), ("NOT", "Not")])
            .find(|(_, n)| *n == name)
            .map(|(p, _)| *p)
    }
    match tree {
        Tree::S(_, f) => f.values().try_for_each(|v| check_roles(v, words)),
        Tree::L(v) => v.iter().try_for_each(|v| check_roles(v, words)),
        Tree::T(name, v) => {
            if let ([Tree::Tok(i)], Some(phrase)) = (&v[..], role(name)) {
                if words.get(*i).map_or(true, |w| !w.is_kw(phrase)) {
                    return Err(format!("word {i} is misfiled as {name}"));
                }
            }
            v.iter().try_for_each(|v| check_roles(v, words))
        }
        _ => Ok(()),
    }
}

const MARKERS: &[(&str, &str)] = &[
    ("visible_token", "VISIBLE"), ("i_has_a_token", "I HAS A"), ("r_token", "R"), ("gimmeh_token", "GIMMEH"),
    ("found_yr_token", "FOUND YR"), ("gtfo_token", "GTFO"), ("k_thx_bye_token", "KTHXBYE"), ("hai_token", "HAI"),
    ("i_iz_token", "I IZ"), ("o_rly_token", "O RLY"), ("ya_rly_token", "YA RLY"), ("mebbe_token", "MEBBE"),
    ("no_wai_token", "NO WAI"), ("wtf_token", "WTF"), ("omg_token", "OMG"), ("omg_wtf_token", "OMGWTF"),
    ("im_in_yr_token", "IM IN YR"), ("how_iz_i_token", "HOW IZ I"), ("an_token", "AN"), ("mkay_token", "MKAY"),
    ("srs", "SRS"),
];

fn check_markers(tree: &Tree, words: &[W]) -> Res {
    match tree {
        Tree::S(_, f) => {
            for (k, v) in f {
                let tok = match v {
                    Tree::Tok(i) => Some(*i),
                    Tree::T(n, w) if n == "Some" => match &w[..] {
                        [Tree::Tok(i)] => Some(*i),
                        _ => None,
                    },
                    _ => None,
                };
                if let (Some(i), Some((_, phrase))) = (tok, MARKERS.iter().find(|(f, _)| f == k)) {
                    if words.get(i).map_or(true, |w| !w.is_kw(phrase)) {
                        return Err(format!("word {i} is misfiled as {k}"));
                    }
                }
                check_markers(v, words)?;
            }
            Ok(())
        }
        Tree::T(_, v) | Tree::L(v) => v.iter().try_for_each(|v| check_markers(v, words)),
        _ => Ok(()),
    }
}

fn account(tree: &Tree, tokens: &[Token]) -> Res {
    let numbers = tree::significant(tokens);
    let statements = cut(tokens);
    let words: Vec<W> =
        tokens.iter().filter(|t| !is_trivia(&t.token_type)).map(|t| word_of(&t.token_type)).collect();
    let mut un = Unparse::default();
    un.block(tree)?;
    check_roles(tree, &words)?;
    check_markers(tree, &words)?;
    for k in 0..statements.len().max(un.segs.len()) {
        let got = un.segs.get(k);
        let Some(statement) = statements.get(k) else {
            return Err(format!("the tree has a statement more than the {} of the input", statements.len()));
        };
        let show: Vec<String> = statement.iter().map(|i| words[numbers[*i]].text()).collect();
        let show = show.join(" ");
        let Some(got) = got else {
            return Err(format!("no error, but the statement {show:?} is not in the tree"));
        };
        let mut at = 0;
        for p in got {
            let word = statement.get(at).map(|i| (numbers[*i], &words[numbers[*i]]));
            let fits = match (p, word) {
                (Pat::Exact(i), Some((j, _))) => *i == j,
                (Pat::Kw(k), Some((_, w))) => w.is_kw(k),
                (Pat::Quest, Some((_, w))) => w.is_quest(),
                (Pat::OptAn, w) => {
                    if !w.map_or(false, |(_, w)| w.is_kw("AN")) {
                        continue;
                    }
                    true
                }
                (_, None) => false,
            };
            if !fits {
                return Err(format!("no error, but the tree does not say {show:?}: word {}", at + 1));
            }
            at += 1;
        }
        if at != statement.len() {
            return Err(format!("no error, but the tree lacks words of {show:?} from word {}", at + 1));
        }
    }
    Ok(())
}

fn c17(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut rest) = t.split(70);
    let (mut l, mut f) = rest.split(90);
    let (segs, label) = match a.weighted(&[60, 60, 60]) {
        // Fewer damages leave more trees without errors
        0 => (damaged_program(&mut a, 1), "one damage"),
        1 => {
            let mut em = Em::new();
            if a.chance(128) {
                let kind = a.below(4);
                gen::block_stmt(&mut em, &mut a, 0, kind);
            } else {
                gen::any_simple(&mut em, &mut a);
            }
            (damage(&mut a, em.segs, 1), "one statement, one damage")
        }
        _ => any_segs(&mut a),
    };
    case.label(label);
    let laid = lay(&mut l, &segs);
    with_input(case, &laid);
    let mut tokens = feed(&mut f, case, &laid)?;
    if f.chance(30) && retype(&mut f, &mut tokens) {
        case.label("hand-made tokens");
        case.input = describe(&tokens);
    }
    let (_, tree) = sut::parse_tree(&tokens)?;
    if has_errors(&tree) {
        case.label("with errors");
        return Ok(());
    }
    case.label("without errors");
    case.nontrivial = segs.iter().map(|s| s.len()).sum::<usize>() >= 3;
    account(&tree, &tokens)
}

// ---- C18 ----------------------------------------------------------------------------------

pub const C18: Property = Property {
    id: "C18",
    cases: 600_000,
    rule: "statements and block headers with one or more damages, or begun and continued with anything, between others or alone, in any layout, some with tokens replaced by ones that no text gives. Non-trivial: the reference tree holds an error",
    assumptions: &["the reference parser states the documented errors of the crate; where its documentation leaves a choice, the crate's behaviour was taken"],
    probes: &[],
    check: |t, case| {
        let (mut a, mut rest) = t.split(75);
        let (mut l, mut f) = rest.split(90);
        let segs = match a.weighted(&[60, 50, 40]) {
            0 => {
                let mut em = Em::new();
                if a.chance(150) {
                    let kind = a.below(11);
                    gen::simple(&mut em, &mut a, kind);
                } else {
                    let kind = a.below(4);
                    gen::block_stmt(&mut em, &mut a, 0, kind);
                }
                case.label("one damage");
                damage(&mut a, em.segs, 1)
            }
            1 => {
                case.label("loose statement");
                let mut segs = vec![loose(&mut a)];
                if a.chance(80) {
                    let mut em = Em::new();
                    gen::any_simple(&mut em, &mut a);
                    segs.extend(em.segs);
                }
                segs
            }
            _ => {
                let (s, l) = any_segs(&mut a);
                case.label(l);
                s
            }
        };
        let laid = lay(&mut l, &segs);
        with_input(case, &laid);
        let mut tokens = feed(&mut f, case, &laid)?;
        let mut expected = refparse::parse(&segs);
        if f.chance(30) && retype(&mut f, &mut tokens) {
            case.label("hand-made tokens");
            case.input = describe(&tokens);
            expected = reference_of(&tokens);
        }
        let mut errors = vec![];
        expected.errors(&mut errors);
        case.nontrivial = !errors.is_empty();
        for e in errors.iter().take(3) {
            let e = e.inner()?;
            let kind = match e.inner() {
                Ok(i) if matches!(i, Tree::T(..)) => i.name(),
                _ => e.name(),
            };
            case.label(error_label(kind));
        }
        let (_, tree) = sut::parse_tree(&tokens)?;
        expect(&expected, &tree)
    },
};

fn error_label(kind: &str) -> &'static str {
    const KINDS: &[&str] = &[
        "UnexpectedToken", "TooManyTokens", "MissingToken", "MissingBlockClosingToken", "MissingIdentifier",
        "InvalidIdentifier", "ExpectedInitialValue", "ExpectedValue", "MissingR", "MissingOperands",
        "MissingQuestionMark", "MissingMebbeExpression", "MissingNameIdentifier", "MissingName", "MissingArgument",
        "MissingMkay", "MissingStartLabel", "InvalidStartLabel", "MissingEndLabel", "InvalidEndLabel",
        "MissingOperand", "MissingYr", "MissingConditionalExpression", "MissingImOuttaYr",
    ];
    KINDS.iter().find(|k| **k == kind).copied().unwrap_or("another error")
}

// ---- C19 ----------------------------------------------------------------------------------

pub const C19: Property = Property {
    id: "C19",
    cases: 330_000,
    rule: "a well-formed program, and the same with one to three malformed simple statements inserted between statements of any of its blocks, in any layout. Non-trivial: the program has at least two statements",
    assumptions: &[],
    probes: &[],
    check: c19,
};

const BLOCK_WORDS: &[&str] = &[
    "O RLY", "WTF", "IM IN YR", "HOW IZ I", "YA RLY", "MEBBE", "NO WAI", "OIC", "OMG", "OMGWTF", "IM OUTTA YR",
    "IF U SAY SO",
];

fn block_word(s: &Seg) -> Option<&'static str> {
    match s.first() {
        Some(W::Kw(k)) => BLOCK_WORDS.iter().find(|b| *b == k).copied(),
        _ => None,
    }
}

/// A single statement that cannot open, close or branch a block, and has an error
fn malformed(t: &mut Tape) -> Seg {
    let seg = match t.weighted(&[40, 30, 20]) {
        0 => {
            let mut em = Em::new();
            gen::any_simple(&mut em, t);
            damage(t, em.segs, 2).into_iter().next().unwrap_or_default()
        }
        1 => loose(t),
        _ => {
            let mut s = vec![];
            for _ in 0..1 + t.size(150, 8) {
                s.push(stray(t));
            }
            s
        }
    };
    let good = !seg.is_empty()
        && block_word(&seg).is_none()
        && has_errors(&refparse::parse(std::slice::from_ref(&seg)));
    if good {
        seg
    } else {
        vec![W::Kw("AN"), W::Kw("GTFO")]
    }
}

/// Puts extra statements into the slots of a program; gives the word numbers of each
fn insert(t: &mut Tape, em: &Em, count: usize) -> (Vec<Seg>, Vec<(usize, usize)>) {
    let mut segs = em.segs.clone();
    let mut marks: Vec<(usize, usize)> = (0..count).map(|i| (*t.pick(&em.slots), i)).collect();
    marks.sort_by(|a, b| b.cmp(a));
    let mut where_ = vec![];
    for (slot, _) in marks {
        segs.insert(slot, malformed(t));
        for w in where_.iter_mut() {
            *w += 1;
        }
        where_.push(slot);
    }
    let first = firsts(&segs);
    let mut ranges: Vec<(usize, usize)> =
        where_.iter().map(|i| (first[*i], first[*i] + segs[*i].len())).collect();
    ranges.sort();
    (segs, ranges)
}

fn c19(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut rest) = t.split(50);
    let (mut b, mut c) = rest.split(40);
    let (em, _) = gen::program(&mut a);
    depth_labels(case, &em);
    case.nontrivial = em.segs.len() >= 2;
    let count = 1 + b.below(3) * b.chance(90) as usize;
    let (segs, ranges) = insert(&mut b, &em, count);
    let (mut l, mut f) = c.split(90);
    let before = layout::plain(&em.segs);
    let laid = lay(&mut l, &segs);
    with_input(case, &laid);
    let (_, expected) = sut::parse_tree(&before.tokens)?;
    let tokens = feed(&mut f, case, &laid)?;
    let (_, got) = sut::parse_tree(&tokens)?;
    let mut removed: Vec<(usize, bool)> = vec![];
    let rest = prune(&got, &ranges, &mut removed)?;
    for (k, (from, to)) in ranges.iter().enumerate() {
        let nodes: Vec<bool> = removed.iter().filter(|r| r.0 == k).map(|r| r.1).collect();
        let what = || {
            let w: Vec<String> =
                segs.iter().flatten().skip(*from).take(to - from).map(|w| w.text()).collect();
            w.join(" ")
        };
        if !nodes.iter().any(|e| *e) {
            return Err(format!("the malformed statement {:?} has no error node at its place", what()));
        }
        if nodes.iter().skip(1).any(|e| !*e) {
            return Err(format!("the malformed statement {:?} has several nodes that are no errors", what()));
        }
    }
    let renumber = |i: usize| i - ranges.iter().filter(|r| r.1 <= i).map(|r| r.1 - r.0).sum::<usize>();
    let mut tokens = vec![];
    rest.tokens(&mut tokens);
    if let Some(i) = tokens.iter().find(|i| ranges.iter().any(|r| r.0 <= **i && **i < r.1)) {
        return Err(format!("word {i}, of the malformed statement, is in a node of another"));
    }
    match diff(&expected, &rest.map_tokens(&renumber)) {
        None => Ok(()),
        Some(d) => Err(format!("the rest of the tree changes, {d}")),
    }
}

/// The tree without the nodes whose tokens all belong to one of the ranges
fn prune(tree: &Tree, ranges: &[(usize, usize)], removed: &mut Vec<(usize, bool)>) -> Result<Tree, String> {
    Ok(match tree {
        Tree::T(name, _) if name == "ASTBlock" => {
            let mut nodes = vec![];
            let mut last = None;
            for n in tree.nodes()? {
                let mut list = vec![];
                n.tokens(&mut list);
                let k = ranges
                    .iter()
                    .position(|r| !list.is_empty() && list.iter().all(|i| r.0 <= *i && *i < r.1));
                match k {
                    Some(k) => {
                        if last != Some(k) && removed.iter().any(|r| r.0 == k) {
                            return Err("the nodes of the malformed statement are in several places".into());
                        }
                        removed.push((k, n.is_error()));
                        last = Some(k);
                    }
                    None => {
                        nodes.push(prune(n, ranges, removed)?);
                        last = None;
                    }
                }
            }
            tree::block(nodes)
        }
        Tree::S(n, f) => {
            let mut g = std::collections::BTreeMap::new();
            for (k, v) in f {
                g.insert(k.clone(), prune(v, ranges, removed)?);
            }
            Tree::S(n.clone(), g)
        }
        Tree::T(n, v) => {
            Tree::T(n.clone(), v.iter().map(|x| prune(x, ranges, removed)).collect::<Result<_, _>>()?)
        }
        Tree::L(v) => Tree::L(v.iter().map(|x| prune(x, ranges, removed)).collect::<Result<_, _>>()?),
        other => other.clone(),
    })
}

// ---- C20 ----------------------------------------------------------------------------------

pub const C20: Property = Property {
    id: "C20",
    cases: 525_000,
    rule: "a well-formed program of nested blocks with one to three block delimiters removed, duplicated, moved or replaced (whole, or only their first word), or cut off at the end of a statement, in any layout. Non-trivial: the delimiters do not match any more, by an independent recogniser",
    assumptions: &[],
    probes: &[],
    check: c20,
};

#[derive(Debug, PartialEq)]
enum Balance {
    Matched,
    /// All match as far as they go; the outermost open one is at this statement
    Open(usize),
    Broken,
}

/// Matches the first words of the statements: a machine with one state per open block
fn balance(segs: &[Seg]) -> Balance {
    // (statement of the opener, kind, branch state)
    let mut open: Vec<(usize, &str, u8)> = vec![];
    for (i, s) in segs.iter().enumerate() {
        let Some(w) = block_word(s) else {
            // A statement must be inside a branch
            if matches!(open.last(), Some((_, "O RLY" | "WTF", 0))) {
                return Balance::Broken;
            }
            continue;
        };
        match w {
            "O RLY" | "WTF" | "IM IN YR" | "HOW IZ I" => {
                if matches!(open.last(), Some((_, "O RLY" | "WTF", 0))) {
                    return Balance::Broken;
                }
                open.push((i, w, 0));
            }
            _ => {
                let Some((_, kind, state)) = open.last_mut() else { return Balance::Broken };
                match (*kind, w, *state) {
                    ("O RLY", "YA RLY", 0) => *state = 1,
                    ("O RLY", "MEBBE", 0 | 1 | 2) => *state = 2,
                    ("O RLY", "NO WAI", 0 | 1 | 2) => *state = 3,
                    ("WTF", "OMG", 0 | 1) => *state = 1,
                    ("WTF", "OMGWTF", 0 | 1) => *state = 2,
                    ("O RLY" | "WTF", "OIC", _)
                    | ("IM IN YR", "IM OUTTA YR", _)
                    | ("HOW IZ I", "IF U SAY SO", _) => {
                        open.pop();
                    }
                    _ => return Balance::Broken,
                }
            }
        }
    }
    match open.first() {
        None => Balance::Matched,
        Some((i, _, _)) => Balance::Open(*i),
    }
}

fn c20(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut rest) = t.split(60);
    let (mut b, mut c) = rest.split(40);
    let mut em = Em::new();
    let depth = a.below(4);
    gen::stmt(&mut em, &mut a, 0);
    for _ in 0..1 + a.below(3) {
        let kind = a.below(4);
        gen::block_stmt(&mut em, &mut a, depth, kind);
        if a.chance(128) {
            gen::any_simple(&mut em, &mut a);
        }
    }
    let mut segs = em.segs;
    // Whether all delimiters are still followed by what belongs to them
    let mut plain = true;
    if b.chance(80) {
        case.label("cut off");
        segs.truncate(1 + b.below(segs.len()));
    } else {
        for _ in 0..1 + b.below(3) * b.chance(80) as usize {
            let at: Vec<usize> = (0..segs.len()).filter(|i| block_word(&segs[*i]).is_some()).collect();
            if at.is_empty() {
                break;
            }
            let i = *b.pick(&at);
            match b.weighted(&[30, 20, 20, 20, 10, 25]) {
                5 => {
                    // Another delimiter in its place, with what stood after it, or more, or less
                    case.label("first word replaced");
                    plain = false;
                    const WORDS: &[&str] = &[
                        "O RLY", "WTF", "IM IN YR", "HOW IZ I", "YA RLY", "MEBBE", "NO WAI", "OMG", "OMGWTF", "OIC",
                        "IM OUTTA YR", "IF U SAY SO", "IF U SAY SO", "IM OUTTA YR", "OIC",
                    ];
                    segs[i][0] = W::Kw(b.pick(WORDS));
                    match b.below(6) {
                        0 => segs[i].truncate(1),
                        1 => segs[i].push(W::Id("x".into())),
                        2 => segs[i].push(W::Quest),
                        3 => segs[i].truncate(2),
                        _ => {}
                    }
                }
                0 => {
                    case.label("removed");
                    segs.remove(i);
                }
                1 => {
                    case.label("duplicated");
                    let s = segs[i].clone();
                    segs.insert(i, s);
                }
                2 => {
                    case.label("moved");
                    let s = segs.remove(i);
                    let j = b.below(segs.len() + 1);
                    segs.insert(j, s);
                }
                3 => {
                    case.label("replaced");
                    let j = *b.pick(&at);
                    segs[i] = segs[j].clone();
                }
                _ => {
                    case.label("copied elsewhere");
                    let s = segs[i].clone();
                    let j = b.below(segs.len() + 1);
                    segs.insert(j, s);
                }
            }
        }
    }
    let (mut l, mut f) = c.split(90);
    let laid = lay(&mut l, &segs);
    with_input(case, &laid);
    let balance = balance(&segs);
    if balance == Balance::Matched {
        case.label("still matched");
        return Ok(());
    }
    case.nontrivial = true;
    let tokens = feed(&mut f, case, &laid)?;
    let (_, tree) = sut::parse_tree(&tokens)?;
    let mut errors = vec![];
    tree.errors(&mut errors);
    if errors.is_empty() {
        return Err("the block delimiters do not match, and there is no error".into());
    }
    if let (Balance::Open(i), true) = (balance, plain) {
        case.label("text ends inside a block");
        let opener = firsts(&segs)[i];
        let reported = errors.iter().any(|e| {
            let Ok(e) = e.inner() else { return false };
            let missing = match e.name() {
                "MissingBlockClosingToken" => e.inner(),
                "ImInYr" => match e.inner() {
                    Ok(i) if i.name() == "MissingImOuttaYr" => i.inner(),
                    _ => return false,
                },
                _ => return false,
            };
            missing == Ok(&Tree::Tok(opener))
        });
        if !reported {
            return Err(format!("the block opened by word {opener} is not closed, and not reported there"));
        }
    }
    Ok(())
}

// ---- C21 ----------------------------------------------------------------------------------

pub const C21: Property = Property {
    id: "C21",
    cases: 525_000,
    rule: "well-formed programs with malformed statements inserted into their blocks, token sequences as for C11, and either with tokens replaced by ones that no text gives. Non-trivial: an error inside a nested block, or at least two errors",
    assumptions: &[],
    probes: &[],
    check: |t, case| {
        let (mut a, mut rest) = t.split(70);
        let (mut l, mut f) = rest.split(90);
        let segs = if a.chance(150) {
            case.label("errors inserted");
            let (mut p, mut m) = a.split(60);
            let (em, _) = gen::program(&mut p);
            let n = m.below(7);
            insert(&mut m, &em, n).0
        } else {
            let (s, label) = any_segs(&mut a);
            case.label(label);
            s
        };
        let laid = lay(&mut l, &segs);
        with_input(case, &laid);
        let mut tokens = feed(&mut f, case, &laid)?;
        if f.chance(30) && retype(&mut f, &mut tokens) {
            case.label("hand-made tokens");
            case.input = describe(&tokens);
        }
        let (block, tree) = sut::parse_tree(&tokens)?;
        let mut expected = vec![];
        ordered_errors(&tree, &mut expected)?;
        let top = tree.nodes()?.iter().filter(|n| n.is_error()).count();
        case.nontrivial = expected.len() >= 2 || top < expected.len();
        if top < expected.len() {
            case.label("nested errors");
        }
        let numbers = tree::significant(&tokens);
        let index = Index::new(&tokens, |i| numbers[i]);
        if f.chance(60) {
            let k = f.below(expected.len() + 2);
            let bounded = || block.iter_errors();
            let more = guard("listing the errors", tokens.len(), || bounded().take(expected.len() + 1).count())?;
            if more == expected.len() {
                sut::iterator_laws("listing the errors", more, k, bounded, |e| format!("{e:?}"))?;
            }
        }
        for round in 0..2 {
            let limit = expected.len() + 8;
            let listed = guard("listing the errors", tokens.len(), || {
                block.iter_errors().take(limit).map(|e| format!("{e:?}")).collect::<Vec<_>>()
            })?;
            let listed: Vec<Tree> =
                listed.iter().map(|e| tree::read(e, &index)).collect::<Result<_, _>>()?;
            for i in 0..listed.len().max(expected.len()) {
                let e = expected.get(i).map(|e| e.inner()).transpose()?;
                let g = listed.get(i);
                if e != g {
                    let show = |t: Option<&Tree>| t.map_or("nothing".into(), |t| t.show());
                    return Err(format!(
                        "listing {}: error {} should be {} and is {}",
                        round + 1,
                        i + 1,
                        show(e),
                        show(g)
                    ));
                }
            }
        }
        Ok(())
    },
};

// ---- C22 ----------------------------------------------------------------------------------

pub const C22: Property = Property {
    id: "C22",
    cases: 450_000,
    rule: "token sequences with distinct positions: damaged programs, loose statements and random words in any layout, tokens of any text, and any of these with tokens or positions that no text gives. Non-trivial: at least two nodes and an error",
    assumptions: &["byte and character offsets of tokens are not printed, and are compared for the expressions that give out their tokens"],
    probes: &[],
    check: c22,
};

fn in_order(tree: &Tree) -> Res {
    if tree.name() == "ASTBlock" {
        let mut end = None;
        for n in tree.nodes()? {
            let mut list = vec![];
            n.tokens(&mut list);
            let (Some(min), Some(max)) = (list.iter().min(), list.iter().max()) else {
                return Err(format!("a node without tokens: {}", n.show()));
            };
            if end.map_or(false, |e| *min <= e) {
                return Err(format!("a node stands after a later one: {}", n.show()));
            }
            end = Some(*max);
        }
    }
    match tree {
        Tree::S(_, f) => f.values().try_for_each(in_order),
        Tree::T(_, v) | Tree::L(v) => v.iter().try_for_each(in_order),
        _ => Ok(()),
    }
}

fn c22(t: &mut Tape, case: &mut Case) -> Res {
    let (mut a, mut rest) = t.split(75);
    let (mut l, mut f) = rest.split(90);
    let mut tokens = if a.chance(60) {
        case.label("tokens of a text");
        let (src, _) = any_text(&mut a, Focus::Any);
        set_input(case, &src);
        match sut::tokenize(&src)? {
            Ok(t) if too_deep(&t) => {
                case.label("skipped: may nest too deep");
                return Ok(());
            }
            Ok(t) => t,
            Err(_) => return Ok(()),
        }
    } else {
        let (segs, label) = any_segs(&mut a);
        case.label(label);
        let laid = lay(&mut l, &segs);
        with_input(case, &laid);
        feed(&mut f, case, &laid)?
    };
    if f.chance(30) && retype(&mut f, &mut tokens) {
        case.label("hand-made tokens");
        case.input = describe(&tokens);
    }
    if f.chance(30) {
        case.label("hand-made positions");
        let mut p = Position::default();
        for token in tokens.iter_mut() {
            let start = mild(odd_position(&mut f, &p));
            let end = mild(odd_position(&mut f, &start));
            token.range = Range(start, end);
            p = end;
        }
        case.input = describe(&tokens);
    }
    // Numbered by place among all tokens, so that trivia would show too
    let index = Index::new(&tokens, |i| i);
    if index.duplicates {
        return Ok(());
    }
    let block = sut::parse(&tokens)?;
    let tree = tree::read(&sut::print(&block, tokens.len())?, &index)?;
    if let Some(alien) = tree.alien() {
        return Err(format!("the tree holds a token that is not in the input: {alien:?}"));
    }
    let mut used = vec![];
    tree.tokens(&mut used);
    used.sort();
    if let Some(w) = used.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("token {} is twice in the tree: {:?}", w[0], tokens[w[0]]).replace('\n', " "));
    }
    case.nontrivial = tree.nodes()?.len() >= 2 && has_errors(&tree);
    // Where the crate gives tokens out, they are those of the input in every field
    for node in &block.0 {
        let Node::Expression(e) = node else { continue };
        let listed = guard("listing the tokens", tokens.len(), || {
            e.tokens().take(tokens.len() + 1).cloned().collect::<Vec<_>>()
        })?;
        for token in &listed {
            let fields = |t: &Token| format!("{:?} {}", t.token_type, all_fields(t));
            let place = index.find(token);
            if place.map_or(true, |i| fields(&tokens[i]) != fields(token)) {
                return Err(format!("an expression holds a token that is not in the input: {token:?} {}", all_fields(token))
                    .replace('\n', " "));
            }
        }
    }
    in_order(&tree)
}

/// What is not printed of a position
fn all_fields(t: &Token) -> String {
    let (a, b) = (&t.range.0, &t.range.1);
    format!("{}-{} {}-{};", a.bytes, b.bytes, a.chars, b.chars)
}

// ---- C23 ----------------------------------------------------------------------------------

pub const C23: Property = Property {
    id: "C23",
    cases: 300_000,
    rule: "a text as for C01, and a second one that is the same, or differs in a word, a number, a case or the layout; or two to six such texts, each tokenized and parsed again in another order, between others. Non-trivial: the text tokenizes to at least three tokens, or fails to tokenize; two texts of the history have different results",
    assumptions: &["the sign of a zero is printed but does not count for equality, as usual for floating point"],
    probes: &[],
    check: c23,
};

/// What a text gives: its tokens with all positions, and the printed tree
fn result_of(src: &str) -> Result<String, String> {
    Ok(match sut::tokenize(src)? {
        Err(e) => format!("{e:?} {}", error_fields(&e)),
        Ok(tokens) => {
            let all: String = tokens
                .iter()
                .map(|t| format!("{t:?}{}", all_fields(t)))
                .collect();
            let tree = if too_deep(&tokens) { String::new() } else { sut::print(&sut::parse(&tokens)?, src.len())? };
            format!("{all}\n{tree}")
        }
    })
}

/// Results do not depend on what was tokenized and parsed before
fn histories(t: &mut Tape, case: &mut Case) -> Res {
    case.label("history");
    let (mut a, mut rest) = t.split(60);
    let (mut b, mut t) = rest.split(60);
    let mut texts: Vec<String> = vec![];
    let (segs, _) = any_segs(&mut a);
    texts.push(lay(&mut b, &segs).src);
    for _ in 0..1 + t.size(150, 4) {
        let s = match t.weighted(&[30, 10, 6, 4]) {
            0 => {
                let k = t.below(texts.len());
                nearby(&mut t, &texts[k])
            }
            // The same statements in another layout
            1 => lay(&mut t, &segs).src,
            2 => any_text(&mut t, Focus::Any).0,
            _ => t.pick(&["", "OBTW", "OBTW x", "VISIBLE \"x", "\n", "O RLY?", "IM IN YR x", "SUM OF 1"]).to_string(),
        };
        texts.push(s);
    }
    set_input(case, &texts.join("\n---- and\n"));
    let mut results: Vec<String> = vec![];
    for s in &texts {
        results.push(result_of(s)?);
    }
    case.nontrivial = results.iter().enumerate().any(|(i, r)| results[..i].iter().any(|q| q != r));
    // Once more in other orders
    for _ in 0..texts.len() + t.below(4) {
        let i = t.below(texts.len());
        if result_of(&texts[i])? != results[i] {
            return Err(format!("text number {} gives another result after the others", i + 1));
        }
        if t.chance(60) {
            // Something that was never there before
            let mut s = t.u32().to_string();
            s.push_str(t.pick(&[" R 1", "\nVISIBLE x", " OBTW", " \"", ""]));
            result_of(&s)?;
        }
    }
    // Nor are the results those of other texts
    for (i, s) in texts.iter().enumerate() {
        let of = |s: &str| reflex::lex(s).map(|l| l.into_iter().map(|t| type_debug(&t.0)).collect::<Vec<_>>());
        let mine = of(s);
        for (j, other) in texts[..i].iter().enumerate() {
            if other != s && results[i] == results[j] && mine != of(other) {
                return Err(format!("texts number {} and {} give the same result", j + 1, i + 1));
            }
        }
    }
    Ok(())
}

fn c23(t: &mut Tape, case: &mut Case) -> Res {
    if t.chance(90) {
        return histories(t, case);
    }
    let (mut a, mut b) = t.split(80);
    let (src, label) = match a.weighted(&[60, 40]) {
        0 => any_text(&mut a, Focus::Any),
        _ => {
            let (mut p, mut l) = a.split(70);
            let (segs, label) = any_segs(&mut p);
            (lay(&mut l, &segs).src, label)
        }
    };
    case.label(label);
    set_input(case, &src);
    if matches!(sut::tokenize(&src)?, Ok(t) if too_deep(&t)) {
        case.label("skipped: may nest too deep");
        return Ok(());
    }
    let both = |s: &str| -> Result<Result<ASTBlock, String>, String> {
        let owned = s.to_string();
        Ok(guard("tokenize_and_parse", 2 * s.len(), || lolcode_ast::tokenize_and_parse(owned))?
            .map_err(|e| format!("{e:?} {}", error_fields(&e))))
    };
    let one = both(&src)?;
    let again = both(&src)?;
    let two = match sut::tokenize(&src)? {
        Err(e) => {
            case.nontrivial = true;
            case.label("error");
            Err(format!("{e:?} {}", error_fields(&e)))
        }
        Ok(tokens) => {
            case.nontrivial = tokens.len() >= 3;
            Ok(sut::parse(&tokens)?)
        }
    };
    let print = |r: &Result<ASTBlock, String>| -> Result<String, String> {
        match r {
            Ok(b) => sut::print(b, src.len()),
            Err(e) => Ok(e.clone()),
        }
    };
    // The positions that the printed tree lacks, of the tokens it gives out
    let positions = |r: &Result<ASTBlock, String>| -> Result<String, String> {
        let mut all = String::new();
        for node in r.iter().flat_map(|b| &b.0) {
            if let Node::Expression(e) = node {
                all.push_str(&guard("listing the tokens", src.len(), || {
                    e.tokens().take(src.len() + 1).map(all_fields).collect::<String>()
                })?);
            }
        }
        Ok(all)
    };
    let (p1, p2, p3) = (print(&one)?, print(&two)?, print(&again)?);
    let zero = |s: &str| s.replace("-0.0", "0.0");
    let (q1, q2, q3) = (positions(&one)?, positions(&two)?, positions(&again)?);
    if p1 != p2 || q1 != q2 || one.is_ok() != two.is_ok() {
        return Err("the one-step entry point gives another result than the two steps".into());
    }
    if p1 != p3 || q1 != q3 {
        return Err("the same call gives another result the second time".into());
    }
    if guard("comparing", src.len(), || one == two && one == again)? == false {
        return Err("equal calls give results that do not compare equal".into());
    }
    // A text nearby
    let other = nearby(&mut b, &src);
    let near = both(&other)?;
    let equal = guard("comparing", src.len(), || (one == near, near == one))?;
    let p4 = print(&near)?;
    if equal.0 != equal.1 {
        return Err(format!("comparing with the result for {other:?} depends on the order"));
    }
    if equal.0 {
        case.label("equal pair");
        if zero(&p1) != zero(&p4) {
            return Err(format!("compares equal to the result for {other:?}, but prints otherwise"));
        }
    } else {
        case.label("unequal pair");
    }
    Ok(())
}

fn error_fields(e: &lolcode_ast::lexer::TokenError) -> String {
    let lolcode_ast::lexer::TokenError::UnclosedMultilineComment(r) = e;
    format!("{} {} {} {}", r.0.bytes, r.0.chars, r.1.bytes, r.1.chars)
}

/// A text that differs from this one in some detail of the same length, or in its end
fn nearby(t: &mut Tape, src: &str) -> String {
    let mut chars: Vec<char> = src.chars().collect();
    if chars.is_empty() {
        return String::new();
    }
    match t.weighted(&[60, 10, 10, 10]) {
        0 => {
            for _ in 0..1 + t.below(2) {
                let start = t.below(chars.len());
                // The next letter or digit from there
                let i = (start..chars.len()).chain(0..start).find(|i| chars[*i].is_ascii_alphanumeric());
                if let Some(i) = i {
                    chars[i] = match chars[i] {
                        c @ '0'..='8' => (c as u8 + 1) as char,
                        '9' => '8',
                        'Z' => 'Y',
                        'z' => 'y',
                        c if t.chance(60) => {
                            if c.is_ascii_lowercase() {
                                c.to_ascii_uppercase()
                            } else {
                                c.to_ascii_lowercase()
                            }
                        }
                        c => (c as u8 + 1) as char,
                    };
                }
            }
            chars.into_iter().collect()
        }
        1 => {
            let mut s = String::new();
            text::fragment(t, Focus::Any, &mut s);
            format!("{src}\n{s}")
        }
        2 => {
            let k = t.below(chars.len());
            chars[..k].iter().collect()
        }
        // A word for another of the same length
        _ => {
            const SWAPS: &[(&str, &str)] = &[
                ("WIN", "BIN"), ("UPPIN", "UPPIM"), ("UPPIN YR", "NERFIN YR"), ("TIL", "WILE"), ("SUM OF", "MOD OF"),
                ("NUMBR", "TROOF"), ("BOTH OF", "WON OF"), ("ALL OF", "ANY OF"), ("MKAY", ""), ("AN ", "   "),
                ("!", " "), ("SRS", "   "), ("YA RLY", "NO WAI"), ("BIGGR OF", "QUOSHUNT OF"),
            ];
            let (x, y) = *t.pick(SWAPS);
            src.replacen(x, y, 1)
        }
    }
}

// ---- C24 ----------------------------------------------------------------------------------

pub const C24: Property = Property {
    id: "C24",
    cases: 270_000,
    rule: "two programs, the first with all its blocks closed and malformed simple statements here and there, the second damaged in any way: parsed apart and joined; or one program parsed where it is and after a prefix of blank lines, indentation or comments (up to 70000 lines or columns). Non-trivial: both programs have a statement, or the prefix is not empty",
    assumptions: &[],
    probes: &[],
    check: c24,
};

fn shifted(tokens: &[Token], prefix: &str) -> Vec<Token> {
    let lines = prefix.matches('\n').count() as i32;
    let column = (prefix.len() - prefix.rfind('\n').map_or(0, |i| i + 1)) as i32;
    let shift = |p: &Position| Position {
        line: p.line + lines,
        column: if p.line == 1 { p.column + column } else { p.column },
        bytes: p.bytes + prefix.len() as i32,
        chars: p.chars + prefix.chars().count() as i32,
    };
    tokens
        .iter()
        .map(|t| Token {
            token_type: t.token_type.clone(),
            range: Range(shift(&t.range.0), shift(&t.range.1)),
        })
        .collect()
}

fn c24(t: &mut Tape, case: &mut Case) -> Res {
    if t.chance(160) {
        case.label("joined");
        let (mut a, mut b) = t.split(50);
        let (mut p, mut r) = a.split(60);
        let (mut m, mut l) = r.split(50);
        let (em, _) = gen::program(&mut p);
        let count = if m.chance(128) { 1 + m.below(3) } else { 0 };
        let (segs, _) = insert(&mut m, &em, count);
        let one = lay(&mut l, &segs);
        let (mut p, mut l) = b.split(70);
        let (segs, _) = any_segs(&mut p);
        let from_text = l.chance(90);
        let two = lay(&mut l, &segs);
        // A program that ends in an ellipsis would go on; a comma ends it
        let end = one.tokens.iter().rev().find(|t| !matches!(t.token_type, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)));
        let goes_on = end.map_or(false, |t| t.token_type == TokenType::Ellipsis);
        let at = |n| Position { line: 1, column: 1 + n, bytes: n, chars: n };
        let comma = [Token { token_type: TokenType::Comma, range: Range(at(0), at(1)) }];
        let comma = shifted(&comma, &format!("{}\n", one.src));
        let prefix = format!("{}\n{}", one.src, if goes_on { ",\n" } else { "" });
        set_input(case, &format!("{prefix}{}", two.src));
        case.nontrivial = !one.tokens.is_empty() && !two.tokens.is_empty();
        let (first, second, joined) = if from_text {
            case.label("from text");
            (
                sut::tokens(&one.src)?,
                sut::tokens(&two.src)?,
                sut::tokens(&format!("{prefix}{}", two.src))?,
            )
        } else {
            let mut joined = one.tokens.clone();
            if goes_on {
                joined.extend(comma);
            }
            joined.extend(shifted(&two.tokens, &prefix));
            (one.tokens, two.tokens, joined)
        };
        let (_, ta) = sut::parse_tree(&first)?;
        let (_, tb) = sut::parse_tree(&second)?;
        let (_, whole) = sut::parse_tree(&joined)?;
        let n = first.iter().filter(|t| !is_trivia(&t.token_type)).count();
        let mut nodes = ta.nodes()?.clone();
        nodes.extend(tb.nodes()?.iter().map(|x| x.map_tokens(&|i| if i >= TRIVIA { i } else { i + n })));
        match diff(&tree::block(nodes), &whole) {
            None => Ok(()),
            Some(d) => Err(format!("the joined program has another tree, {d}")),
        }
    } else {
        case.label("moved");
        let (mut p, mut l) = t.split(70);
        let (segs, _) = any_segs(&mut p);
        let mut prefix = String::new();
        let from_text = l.chance(90);
        let style = if l.chance(128) { FREE } else { PLAIN };
        let mut huge = false;
        for _ in 0..1 + l.size(140, 6) {
            match l.weighted(&[30, 20, 10, 10, 1, 1]) {
                0 => prefix.push('\n'),
                1 => prefix.push_str(&" ".repeat(dict::count(&mut l, 66_000).filter(|_| l.chance(20)).unwrap_or(1 + l.below(20)))),
                2 => prefix.push_str(&"\n".repeat(dict::count(&mut l, 66_000).filter(|_| l.chance(20)).unwrap_or(l.below(400)))),
                3 => {
                    // Comments, of both kinds
                    let c = layout::comment_text(&mut l);
                    if l.chance(128) {
                        prefix.push_str(&format!("BTW{c}\n"));
                    } else {
                        prefix.push_str(&format!("OBTW{c}\n{c}TLDR "));
                    }
                }
                4 if !huge => {
                    huge = true;
                    prefix.push_str(&"\n".repeat(60_000 + l.below(10_000)))
                }
                5 if !huge => {
                    huge = true;
                    prefix.push_str(&" ".repeat(60_000 + l.below(10_000)))
                }
                _ => prefix.push('\n'),
            }
        }
        let laid = layout(&segs, &mut l, style);
        let moved = format!("{prefix}{}", laid.src);
        set_input(case, &moved);
        case.nontrivial = true;
        let (here, there) = if from_text {
            case.label("from text");
            (sut::tokens(&laid.src)?, sut::tokens(&moved)?)
        } else {
            (laid.tokens.clone(), shifted(&laid.tokens, &prefix))
        };
        let (_, a) = sut::parse_tree(&here)?;
        let (_, b) = sut::parse_tree(&there)?;
        match diff(&a, &b) {
            None => Ok(()),
            Some(d) => Err(format!("moved, the program has another tree, {d}")),
        }
    }
}
