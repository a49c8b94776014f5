//! The properties of the tokenizer and of positions.

use crate::dict;
use crate::layout::comment_text;
use crate::props::{Case, Property};
use crate::reflex::{self, Positions};
use crate::sut::{self, guard};
use crate::tape::Tape;
use crate::text::*;
use crate::words::*;
use lolcode_ast::lexer::{NumberToken, Position, Range, Token, TokenError, TokenType, TokenValue};
use std::cmp::Ordering;

type Res = Result<(), String>;

fn fields(p: &Position) -> (i32, i32, i32, i32) {
    (p.line, p.column, p.bytes, p.chars)
}
fn show(p: &Position) -> String {
    format!("line {} column {} byte {} char {}", p.line, p.column, p.bytes, p.chars)
}
fn show_token(t: &Token) -> String {
    let mut k = type_debug(&t.token_type);
    if k.len() > 200 {
        k = k.chars().take(200).collect();
    }
    format!("{k} from {} to {}", show(&t.range.0), show(&t.range.1))
}

fn kinds(tokens: &[Token], of: fn(&TokenType) -> bool) -> Vec<String> {
    tokens.iter().filter(|t| of(&t.token_type)).map(|t| type_debug(&t.token_type)).collect()
}

fn short(s: &str) -> String {
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s.to_string()
    }
}

fn same(expected: &[String], got: &[String], what: &str) -> Res {
    if expected == got {
        return Ok(());
    }
    let i = expected.iter().zip(got).take_while(|(a, b)| a == b).count();
    let at = |l: &[String]| l.get(i).map_or("nothing".to_string(), |s| short(s));
    Err(format!("{what} number {} should be {} and is {}", i + 1, at(expected), at(got)))
}

fn same_tokens(expected: &[Token], got: &[Token]) -> Res {
    for i in 0..expected.len().max(got.len()) {
        match (expected.get(i), got.get(i)) {
            (Some(e), Some(g)) => {
                let equal = type_debug(&e.token_type) == type_debug(&g.token_type)
                    && fields(&e.range.0) == fields(&g.range.0)
                    && fields(&e.range.1) == fields(&g.range.1);
                if !equal {
                    return Err(format!("token {i} should be {} and is {}", show_token(e), show_token(g)));
                }
            }
            (Some(e), None) => return Err(format!("missing token {i}: {}", show_token(e))),
            (None, Some(g)) => return Err(format!("token too much, {i}: {}", show_token(g))),
            (None, None) => {}
        }
    }
    Ok(())
}

fn set_input(case: &mut Case, src: &str) {
    case.set_input(src)
}

// ---- C01 ----------------------------------------------------------------------------------

pub const C01: Property = Property {
    id: "C01",
    cases: 600_000,
    rule: "a text: a soup of LOLCODE fragments, a laid-out program with characters deleted, inserted, replaced or cut off, Unicode noise, or a long repetition. Non-trivial: not all ASCII, or it holds a quote, a comment marker or an unclosed comment",
    assumptions: &["a call that executes 20 million + 100000 per character branches, or allocates 64 MB + 256 KB per character, runs away"],
    probes: &[],
    check: c01,
};

fn c01(t: &mut Tape, case: &mut Case) -> Res {
    let (src, label) = any_text(t, Focus::Any);
    case.label(label);
    set_input(case, &src);
    let expected = reflex::lex(&src);
    if expected.is_err() {
        case.label("unclosed comment");
    }
    case.nontrivial = !src.is_ascii() || src.contains(['"']) || src.contains("BTW");
    let got = sut::tokenize(&src)?;
    match (&expected, &got) {
        (Ok(_), Err(e)) => return Err(format!("an error, without an unclosed comment: {e:?}")),
        (Err(at), Ok(_)) => {
            return Err(format!("no error, but the OBTW at character {at} is never closed"))
        }
        _ => {}
    }
    if let Ok(tokens) = got {
        let n = src.chars().count();
        if tokens.len() > n {
            return Err(format!("{} tokens out of {n} characters", tokens.len()));
        }
    }
    Ok(())
}

// ---- C02 ----------------------------------------------------------------------------------

pub const C02: Property = Property {
    id: "C02",
    cases: 400_000,
    rule: "a text as for C01, or a sequence of lexemes. Non-trivial: it tokenizes to at least three tokens, of at least two kinds",
    assumptions: &[],
    probes: &[],
    check: c02,
};

fn mixed_text(t: &mut Tape, case: &mut Case) -> String {
    if t.chance(70) {
        case.label("lexemes");
        let focus = *t.pick(&[Focus::Mark, Focus::Name, Focus::Number, Focus::Yarn, Focus::Comment, Focus::Keyword]);
        lexemes(t, focus).1.src
    } else {
        let (s, l) = any_text(t, Focus::Any);
        case.label(l);
        s
    }
}

/// Whether the text spells this token
fn spells(kind: &TokenType, text: &str, at_end: bool) -> bool {
    match kind {
        TokenType::Keyword(k) => {
            all_keywords().iter().any(|(phrase, x)| x == k && *phrase == text)
        }
        TokenType::Identifier(n) => n == text,
        TokenType::Symbol(s) => s == text && text.chars().count() == 1,
        TokenType::Value(TokenValue::Boolean(b)) => text == if *b { "WIN" } else { "FAIL" },
        TokenType::Value(TokenValue::NOOB) => text == "NOOB",
        TokenType::Value(TokenValue::Number(NumberToken::Int(v))) => {
            text.bytes().all(|b| b.is_ascii_digit() || b == b'+' || b == b'-')
                && text.parse::<i32>() == Ok(*v)
        }
        TokenType::Value(TokenValue::Number(NumberToken::Float(v))) => {
            text.bytes().all(|b| b.is_ascii_digit() || b".+-".contains(&b))
                && text.contains('.')
                && text.parse::<f32>().map(f32::to_bits) == Ok(v.to_bits())
        }
        TokenType::Value(TokenValue::String(s)) => match text.strip_prefix('"') {
            None => false,
            Some(rest) => rest.strip_suffix('"') == Some(s) || (at_end && rest == s),
        },
        TokenType::CommentSingleLine(c) => text.strip_prefix("BTW") == Some(c),
        TokenType::CommentMultiLine(c) => {
            text.strip_prefix("OBTW").and_then(|r| r.strip_suffix("TLDR")) == Some(c)
        }
        TokenType::BukkitSlotAccess => text == "'Z",
        TokenType::Ellipsis => text == "..." || text == "\u{2026}",
        TokenType::Comma => text == ",",
        TokenType::ExclamationMark => text == "!",
        TokenType::QuestionMark => text == "?",
    }
}

fn c02(t: &mut Tape, case: &mut Case) -> Res {
    let src = mixed_text(t, case);
    set_input(case, &src);
    let Ok(tokens) = sut::tokenize(&src)? else { return Ok(()) };
    let positions = Positions::new(&src);
    let mut kinds_seen = std::collections::HashSet::new();
    let mut end = 0usize;
    for (i, token) in tokens.iter().enumerate() {
        kinds_seen.insert(std::mem::discriminant(&token.token_type));
        let wrong = |what: &str| Err(format!("token {i}, {}: {what}", show_token(token)));
        let (a, b) = (token.range.0.bytes, token.range.1.bytes);
        if a < 0 || b < 0 || a as usize >= src.len() || b as usize > src.len() || a >= b {
            return wrong("its byte offsets are no part of the text");
        }
        let (a, b) = (a as usize, b as usize);
        if a < end {
            return wrong("it overlaps the token before it");
        }
        let (Some(ca), Some(cb)) = (positions.char_at_byte(a), positions.char_at_byte(b)) else {
            return wrong("it begins or ends inside a character");
        };
        if let Some(c) = src[end..a].chars().find(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')) {
            return wrong(&format!("no token covers the {c:?} before it"));
        }
        if token.range.0.chars != ca as i32 || token.range.1.chars != cb as i32 {
            return wrong(&format!("its character offsets should be {ca} and {cb}"));
        }
        if !spells(&token.token_type, &src[a..b], b == src.len()) {
            return wrong(&format!("the text there is {:?}", short(&src[a..b])));
        }
        end = b;
    }
    if let Some(c) = src[end..].chars().find(|c| !matches!(c, ' ' | '\t' | '\r' | '\n')) {
        return Err(format!("no token covers the {c:?} after the last one"));
    }
    case.nontrivial = tokens.len() >= 3 && kinds_seen.len() >= 2;
    Ok(())
}

// ---- C03 ----------------------------------------------------------------------------------

pub const C03: Property = Property {
    id: "C03",
    cases: 500_000,
    rule: "a text as for C02. Non-trivial: it has a token after a newline, and non-ASCII text or a token that spans lines",
    assumptions: &["columns count bytes, as the crate does"],
    probes: &[],
    check: c03,
};

fn c03(t: &mut Tape, case: &mut Case) -> Res {
    let src = mixed_text(t, case);
    set_input(case, &src);
    let Ok(tokens) = sut::tokenize(&src)? else { return Ok(()) };
    let positions = Positions::new(&src);
    for (i, token) in tokens.iter().enumerate() {
        for (p, which) in [(&token.range.0, "start"), (&token.range.1, "end")] {
            let at = (p.bytes >= 0).then(|| positions.char_at_byte(p.bytes as usize)).flatten();
            let Some(at) = at else {
                return Err(format!("token {i}, {}: its {which} is not in the text", show_token(token)));
            };
            let e = positions.at(at);
            if (e.line, e.column) != (p.line, p.column) {
                return Err(format!(
                    "token {i}, {}: its {which} is on line {} column {}",
                    show_token(token),
                    e.line,
                    e.column
                ));
            }
        }
        if token.range.1.line > token.range.0.line {
            case.label("token over several lines");
            case.nontrivial = true;
        }
        if token.range.0.line > 1 && !src.is_ascii() {
            case.nontrivial = true;
        }
    }
    Ok(())
}

// ---- C04 to C09: classes of lexemes ---------------------------------------------------------

fn is_keyword(t: &TokenType) -> bool {
    matches!(
        t,
        TokenType::Keyword(_)
            | TokenType::Value(TokenValue::Boolean(_))
            | TokenType::Value(TokenValue::NOOB)
    )
}
fn is_identifier(t: &TokenType) -> bool {
    matches!(t, TokenType::Identifier(_))
}
fn is_literal(t: &TokenType) -> bool {
    matches!(t, TokenType::Value(v) if !matches!(v, TokenValue::String(_)))
}
fn is_number_part(t: &TokenType) -> bool {
    let part = |c: char| c.is_ascii_digit() || "+-.".contains(c);
    is_literal(t) || matches!(t, TokenType::Symbol(s) if s.chars().all(part))
}
fn is_yarn(t: &TokenType) -> bool {
    matches!(t, TokenType::Value(TokenValue::String(_)))
}
fn is_comment(t: &TokenType) -> bool {
    matches!(t, TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_))
}
fn any(_: &TokenType) -> bool {
    true
}

/// Lexemes written out, or a soup measured by the reference tokenizer; only tokens of the class
/// (or all of them, where the property speaks about the neighbours too) are compared
fn class_check(
    t: &mut Tape,
    case: &mut Case,
    focus: Focus,
    class: fn(&TokenType) -> bool,
    built: fn(&TokenType) -> bool,
    what: &str,
) -> Res {
    if t.chance(110) {
        case.label("fragments");
        let (src, _) = any_text(t, focus);
        set_input(case, &src);
        let Ok(expected) = reflex::lex(&src) else { return Ok(()) };
        let expected: Vec<String> =
            expected.iter().filter(|e| class(&e.0)).map(|e| type_debug(&e.0)).collect();
        case.nontrivial = expected.len() >= 2;
        let got = sut::tokens(&src)?;
        same(&expected, &kinds(&got, class), what)
    } else {
        case.label("lexemes");
        let (list, laid) = lexemes(t, focus);
        set_input(case, &laid.src);
        let n = list.iter().filter(|l| class(&l.kind)).count();
        case.nontrivial = n >= 1 && list.len() >= 2;
        let got = sut::tokens(&laid.src)?;
        same(&kinds(&laid.tokens, built), &kinds(&got, built), what)
    }
}

pub const C04: Property = Property {
    id: "C04",
    cases: 400_000,
    rule: "keywords with names, numbers, yarns, comments and punctuation around them, touching or apart, with the tokens known by construction; or a soup of keyword fragments and near-keywords against a reference tokenizer. Non-trivial: a keyword with a neighbour, or two keywords in the soup",
    assumptions: &["a keyword right after a digit is delimited, as the crate has it"],
    probes: &[],
    check: |t, case| {
        if t.chance(16) {
            case.label("spellings");
            set_input(case, "the spellings of all keywords");
            let spelled = guard("to_string_slice", 1, || {
                all_keywords().iter().map(|(p, k)| (*p, k.to_string_slice())).collect::<Vec<_>>()
            })?;
            for (p, s) in spelled {
                if p != s {
                    return Err(format!("the keyword {p} is spelled {s:?}"));
                }
            }
        }
        class_check(t, case, Focus::Keyword, is_keyword, is_keyword, "keyword")
    },
};

pub const C05: Property = Property {
    id: "C05",
    cases: 500_000,
    rule: "names (arbitrary ones, keywords continued, prefixed, cut short, lowered or joined, first words of longer keywords, long names) among other lexemes, with the tokens known by construction; or a soup of name fragments against a reference tokenizer. Non-trivial: a name with a neighbour, or two names in the soup",
    assumptions: &[],
    probes: &[],
    check: |t, case| class_check(t, case, Focus::Name, is_identifier, is_identifier, "name"),
};

pub const C06: Property = Property {
    id: "C06",
    cases: 400_000,
    rule: "numbers (all magnitudes of 32-bit integers, leading zeros, signs; decimals with up to 100 digits, a point at either end, and values next to the middle between two floats), WIN, FAIL and NOOB among other lexemes and at the end of the text, with the tokens known by construction; or a soup of number fragments against a reference tokenizer. Non-trivial: a literal with a neighbour, or two literals in the soup",
    assumptions: &["Rust's own conversion of decimals to 32-bit floats is correctly rounded"],
    probes: &[],
    // A literal that falls to pieces shows in the digits, signs and points left over
    check: |t, case| class_check(t, case, Focus::Number, is_number_part, is_number_part, "literal or piece of a number"),
};

pub const C07: Property = Property {
    id: "C07",
    cases: 400_000,
    rule: "yarns (escapes, doubled escapes, Unicode, newlines, comment markers and keywords inside, long ones) among other lexemes, with the tokens known by construction; or a soup of pieces of yarns against a reference tokenizer. Non-trivial: a yarn with a neighbour, or two yarns in the soup",
    assumptions: &[],
    probes: &[],
    check: |t, case| class_check(t, case, Focus::Yarn, is_yarn, any, "token"),
};

pub const C08: Property = Property {
    id: "C08",
    cases: 440_000,
    rule: "comments of both kinds among other lexemes, with the tokens known by construction, a third of the time with an OBTW at the end that is never closed; or a soup of comment fragments against a reference tokenizer. Non-trivial: a comment with a neighbour",
    assumptions: &["BTW and OBTW start a comment wherever a word can start, also in front of letters, as the crate has it"],
    probes: &[],
    check: c08,
};

fn unclosed(src: &str, at: usize) -> Res {
    let p = Positions::new(src);
    match sut::tokenize(src)? {
        Ok(_) => Err(format!("no error, but the OBTW at character {at} is never closed")),
        Err(TokenError::UnclosedMultilineComment(Range(a, b))) => {
            let n = src.chars().count();
            if fields(&a) != fields(&p.at(at)) || fields(&b) != fields(&p.at(n)) {
                return Err(format!(
                    "the error should go from {} to {}, and goes from {} to {}",
                    show(&p.at(at)),
                    show(&p.at(n)),
                    show(&a),
                    show(&b)
                ));
            }
            Ok(())
        }
    }
}

fn c08(t: &mut Tape, case: &mut Case) -> Res {
    match t.weighted(&[30, 30, 20]) {
        0 => class_check(t, case, Focus::Comment, is_comment, any, "token"),
        1 => {
            case.label("fragments");
            let (src, _) = any_text(t, Focus::Comment);
            set_input(case, &src);
            match reflex::lex(&src) {
                Err(at) => {
                    case.label("unclosed comment");
                    case.nontrivial = true;
                    unclosed(&src, at)
                }
                Ok(expected) => {
                    let expected: Vec<String> = expected
                        .iter()
                        .filter(|e| is_comment(&e.0))
                        .map(|e| type_debug(&e.0))
                        .collect();
                    case.nontrivial = !expected.is_empty();
                    same(&expected, &kinds(&sut::tokens(&src)?, is_comment), "comment")
                }
            }
        }
        _ => {
            case.label("unclosed comment");
            let (mut a, mut b) = t.split(60);
            let (list, laid) = lexemes(&mut a, Focus::Comment);
            let mut src = laid.src;
            if matches!(list.last().map(|l| &l.kind), Some(TokenType::CommentSingleLine(_)))
                && !src.ends_with('\n')
            {
                src.push('\n');
            } else {
                src.push(' ');
            }
            let at = src.chars().count();
            src.push_str("OBTW");
            for _ in 0..b.size(150, 6) {
                src.push_str(&comment_text(&mut b));
                src.push_str(b.pick(&["\n", "", "\r\n"]));
            }
            set_input(case, &src);
            case.nontrivial = true;
            unclosed(&src, at)
        }
    }
}

pub const C09: Property = Property {
    id: "C09",
    cases: 500_000,
    rule: "punctuation and symbols, drawn from all of Unicode, among other lexemes, touching or apart, with the tokens known by construction; or a soup of them against a reference tokenizer. Non-trivial: a mark with a neighbour, or two marks in the soup",
    assumptions: &["an integer beyond 32 bits is no literal, and its digits are symbols, as the crate has it"],
    probes: &[],
    check: |t, case| class_check(t, case, Focus::Mark, is_mark, any, "token"),
};

fn is_mark(t: &TokenType) -> bool {
    matches!(
        t,
        TokenType::Comma
            | TokenType::ExclamationMark
            | TokenType::QuestionMark
            | TokenType::BukkitSlotAccess
            | TokenType::Ellipsis
            | TokenType::Symbol(_)
    )
}

// ---- C10 ----------------------------------------------------------------------------------

pub const C10: Property = Property {
    id: "C10",
    cases: 400_000,
    rule: "two spacings of one text (lexemes, soups, mutated programs), with blank space changed, inserted and removed where tokens stay apart; or two such texts tokenized apart and joined by a newline. Non-trivial: at least three tokens, and at least two respaced gaps or two non-empty texts",
    assumptions: &[],
    probes: &[],
    check: c10,
};

fn c10(t: &mut Tape, case: &mut Case) -> Res {
    if t.chance(128) {
        case.label("joined");
        let (mut ta, mut tb) = t.split(50);
        let a = mixed_text(&mut ta, case);
        let b = mixed_text(&mut tb, case);
        let joined = format!("{a}\n{b}");
        set_input(case, &joined);
        let Ok(open) = reflex::lex(&a) else { return Ok(()) };
        let n = a.chars().count();
        if let Some((TokenType::Value(TokenValue::String(s)), from, to)) = open.last() {
            // Unclosed: there is no quote after the contents
            if to - from == s.chars().count() + 1 {
                return Ok(());
            }
        }
        let first = sut::tokens(&a)?;
        let second = sut::tokenize(&b)?;
        let whole = sut::tokenize(&joined)?;
        let lines = a.matches('\n').count() as i32;
        let shift = |p: &Position| Position {
            line: p.line + lines + 1,
            column: p.column,
            bytes: p.bytes + a.len() as i32 + 1,
            chars: p.chars + n as i32 + 1,
        };
        case.nontrivial = !first.is_empty();
        match (second, whole) {
            (Ok(second), Ok(whole)) => {
                case.nontrivial &= first.len() + second.len() > 2;
                let mut expected = first;
                expected.extend(second.into_iter().map(|t| Token {
                    range: Range(shift(&t.range.0), shift(&t.range.1)),
                    token_type: t.token_type,
                }));
                same_tokens(&expected, &whole)
            }
            (
                Err(TokenError::UnclosedMultilineComment(e)),
                Err(TokenError::UnclosedMultilineComment(g)),
            ) => {
                if fields(&shift(&e.0)) != fields(&g.0) || fields(&shift(&e.1)) != fields(&g.1) {
                    return Err("the error of the second text is reported elsewhere in both".into());
                }
                Ok(())
            }
            (a, b) => Err(format!(
                "the second text alone {}, but the joined text {}",
                if a.is_ok() { "tokenizes" } else { "does not tokenize" },
                if b.is_ok() { "does" } else { "does not" }
            )),
        }
    } else {
        case.label("respaced");
        let (mut ta, mut tb) = t.split(60);
        let src = mixed_text(&mut ta, case);
        let Ok(tokens) = reflex::lex(&src) else {
            set_input(case, &src);
            return Ok(());
        };
        let (other, changes) = respace(&mut tb, &src, &tokens);
        set_input(case, &format!("{src}\n---- respaced:\n{other}"));
        case.nontrivial = tokens.len() >= 3 && changes >= 2;
        let a = sut::tokens(&src)?;
        let b = sut::tokens(&other)?;
        same(&kinds(&a, any), &kinds(&b, any), "token")
    }
}

const GAPS: &[&str] = &["  ", "\t", "\n", "\r\n", " \n ", "\r", "\t\t ", "     ", "\n\n\n", " ", "\n\t"];

/// The same tokens with other blank space between them
fn respace(t: &mut Tape, src: &str, tokens: &[(TokenType, usize, usize)]) -> (String, usize) {
    let chars: Vec<char> = src.chars().collect();
    let mut out = String::new();
    let mut changes = 0;
    let wordy = |k: &TokenType| is_identifier(k) || is_keyword(k);
    let apart = |k: &TokenType| {
        matches!(k, TokenType::Comma | TokenType::ExclamationMark | TokenType::QuestionMark)
    };
    if t.chance(80) {
        out.push_str(t.pick(GAPS));
        changes += 1;
    }
    for (i, (kind, a, b)) in tokens.iter().enumerate() {
        if i > 0 {
            let (before, _, end) = &tokens[i - 1];
            let gap: String = chars[*end..*a].iter().collect();
            // The pieces of an overlong number, or of "....", are what they are because they touch
            let fused = gap.is_empty()
                && (matches!(before, TokenType::Symbol(_)) || matches!(kind, TokenType::Symbol(_)));
            let new: String = match t.weighted(&[40, 60, 20]) {
                1 if !fused => {
                    let g = *t.pick(GAPS);
                    if matches!(before, TokenType::CommentSingleLine(_)) {
                        format!("\n{g}")
                    } else if g == " " && wordy(before) && gap != " " {
                        gap.clone()
                    } else {
                        g.into()
                    }
                }
                2 if !is_comment(before)
                    && (apart(before) || apart(kind))
                    && !(apart(before) && apart(kind)) =>
                {
                    String::new()
                }
                _ => gap.clone(),
            };
            changes += (new != gap) as usize;
            out.push_str(&new);
        }
        out.extend(&chars[*a..*b]);
    }
    (out, changes)
}

// ---- C25 ----------------------------------------------------------------------------------

pub const C25: Property = Property {
    id: "C25",
    cases: 2_000_000,
    rule: "a position, of numbers of any size and sign, and three texts to advance by. Non-trivial: the texts hold a newline and a character of several bytes",
    assumptions: &["columns count bytes, as the crate does"],
    probes: &[],
    check: c25,
};

fn advance(p: &Position, text: &str) -> Position {
    let mut q = *p;
    for c in text.chars() {
        q.bytes += c.len_utf8() as i32;
        q.chars += 1;
        if c == '\n' {
            q.line += 1;
            q.column = 1;
        } else {
            q.column += c.len_utf8() as i32;
        }
    }
    q
}

fn position(t: &mut Tape) -> Position {
    // Positions are plain numbers, which nothing keeps from being zero or negative
    let mut n = |big: bool| -> i32 {
        match t.weighted(&[30, 20, if big { 6 } else { 0 }, 6, 3, 1]) {
            4 => -2 - t.below(60) as i32,
            5 => *t.pick(&[i32::MIN, i32::MIN + 1, i32::MIN / 2, -65_536, 0x3fff_ffff, -1]),
            3 => dict::count(t, 70_000).unwrap_or(9) as i32,
            0 => t.below(6) as i32,
            1 => t.below(70_000) as i32,
            _ => (t.u32() & 0x3fff_ffff) as i32,
        }
    };
    Position { line: n(true) + 1, column: n(true) + 1, bytes: n(true), chars: n(true) }
}

fn piece(t: &mut Tape) -> String {
    let mut s = String::new();
    for _ in 0..t.size(190, 30) {
        match t.weighted(&[30, 20, 10, 6, 6, 6]) {
            0 => s.push((b'a' + t.below(26) as u8) as char),
            1 => s.push('\n'),
            2 => s.push(any_char(t)),
            3 => s.push_str("\r\n"),
            4 => s.push_str(t.pick(&["é", "日本", "😀", "\u{2028}", "\u{85}", "\u{b}", "\r", "\t"])),
            _ => fragment(t, Focus::Any, &mut s),
        }
    }
    if t.chance(2) {
        s = s.repeat(dict::count(t, 1000).unwrap_or(1 + t.below(1000)));
    }
    s
}

fn c25(t: &mut Tape, case: &mut Case) -> Res {
    let p = if t.chance(60) { Position::default() } else { position(t) };
    let q = position(t);
    let texts = [piece(t), piece(t), piece(t)];
    let all = texts.concat();
    case.input = format!("{} and {}, advanced by {:?}", show(&p), show(&q), texts);
    if all.len() > 1000 {
        case.input = format!("{} and {}, advanced by {} bytes", show(&p), show(&q), all.len());
    }
    case.nontrivial = all.contains('\n') && !all.is_ascii();
    let check = |what: &str, expected: Position, got: Position| {
        if fields(&expected) == fields(&got) {
            Ok(())
        } else {
            Err(format!("{what}: expected {} and got {}", show(&expected), show(&got)))
        }
    };
    let g = |f: &dyn Fn() -> Position| guard("advancing", all.len(), f);
    check("default", Position { line: 1, column: 1, bytes: 0, chars: 0 }, g(&|| Position::default())?)?;
    check("+ of one text", advance(&p, &texts[0]), g(&|| p + &texts[0][..])?)?;
    check("+ of two texts in turn", advance(&p, &(texts[0].clone() + &texts[1])), g(&|| p + &texts[0][..] + &texts[1][..])?)?;
    check("+ of three texts at once", advance(&p, &all), g(&|| p + &all[..])?)?;
    check(
        "+= of each text",
        advance(&p, &all),
        g(&|| {
            let mut r = p;
            for text in &texts {
                r += &text[..];
            }
            r
        })?,
    )?;
    check(
        "+= of all at once",
        advance(&p, &all),
        g(&|| {
            let mut r = p;
            r += &all[..];
            r
        })?,
    )?;
    // Order
    let later = advance(&p, &all);
    for (a, b) in [(p, q), (q, p), (p, p), (p, later), (later, p), (later, q)] {
        let o = a.bytes.cmp(&b.bytes);
        let got = guard("comparing", 1, || (a.partial_cmp(&b), a < b, a <= b, a > b, a >= b))?;
        let e = (Some(o), o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less);
        if got != e {
            return Err(format!("{} and {} compare as {got:?}", show(&a), show(&b)));
        }
    }
    // Ranges
    let (r, one) = guard("making a range", 1, || (Range::from((p, q)), Range::from(p)))?;
    check("a range's start", p, r.0)?;
    check("a range's end", q, r.1)?;
    check("a point range's start", p, one.0)?;
    check("a point range's end", p, one.1)
}
