//! Generators of raw text: soups of lexical fragments, Unicode noise, programs with their
//! characters mutated, and sequences of lexemes whose tokens are known by construction.

use crate::dict;
use crate::gen;
use crate::layout::{self, comment_text, Laid, Writer, FREE};
use crate::tape::Tape;
use crate::words::*;
use lolcode_ast::lexer::{TokenType, TokenValue};

const BLANKS: &[&str] = &[" ", "\n", "  ", "\t", "\r\n", "\r", "\n\n", "   ", " \n", "\t \t", " \r "];
const MARKS: &[&str] = &[
    ",", "!", "?", "'Z", "...", "\u{2026}", ".", "'", "..", "....", "\"", ":", ":\"", "::", "+", "-", "(", ")",
    "_", "''Z", "'z", "'ZZ", ",,", "?!",
];
const COMMENTS: &[&str] = &["BTW", "OBTW", "TLDR", "BTW x\n", "OBTW y TLDR", "OBTW\nz\nTLDR", "OBT", "TLD"];
const NUMBERS: &[&str] = &[
    "0", "1", "42", "-7", "+3", "007", "2147483647", "-2147483648", "2147483648", "1.5", "-0.25", ".5", "5.",
    "1.2.3", "1..2", "+-1", "-", "--1", "1-1", "1e5", "0x1F", "-.5", "+.", "-.", "99999999999", "-0", "-0.0",
    "3.4028236e38", "1_000", "16777217.0", "0.1", "12345678901234567890.5",
];
const ODD: &[char] = &[
    'é', 'ß', '日', '本', '😀', '\u{301}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{0}', '\u{7f}', '\u{85}', '\u{b}',
    '\u{c}', '\u{2025}', '\u{2027}', 'Ａ', '１', '\u{661}', 'İ', 'ı', 'K', '\u{10ffff}', '\u{d7ff}', '\u{e000}',
    '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '“', '”', '‘', '’', '，', '？', '！', '\u{200b}',
    '\u{200c}', '\u{200d}', '\u{200e}', '\u{202e}', '\u{2060}', '\u{fe0f}', '\u{20e3}', '\u{1f3fb}', '\u{1f1e6}', '\u{3000}', '\u{2003}',
    '\u{fffd}', '\u{ad}', '\u{1a}', '\u{1b}', '\u{8}', '\u{1c}', '\u{1f}', '\u{180e}', '\u{130}', '\u{1e9e}', 'ǅ', '²', '½', '٫', '−', '–', '…',
    '。', '、', '․', '·', '´', '`', '′', '«', '﹗', '\u{fffe}', '\u{e0001}', '\u{1d7d8}',
];

/// Any character of Unicode
pub fn any_char(t: &mut Tape) -> char {
    match t.weighted(&[30, 30, 10, 10, 10, 3]) {
        5 => dict::char(t).unwrap_or('w'),
        0 => (0x20 + t.below(0x5f) as u8) as char,
        1 => *t.pick(ODD),
        2 => char::from_u32(t.below(0x800) as u32).unwrap_or('x'),
        3 => char::from_u32(t.below(0x10000) as u32).unwrap_or('y'),
        _ => char::from_u32(t.below(0x110000) as u32).unwrap_or('z'),
    }
}

/// One fragment; `focus` (a class of C04 to C09) makes that class more frequent
pub fn fragment(t: &mut Tape, focus: Focus, out: &mut String) {
    let mut w = [22, 16, 10, 10, 8, 8, 8, 4, 3, 8u32];
    match focus {
        Focus::Any => {}
        Focus::Keyword => w[1] += 40,
        Focus::Name => w[2] += 40,
        Focus::Number => w[3] += 40,
        Focus::Yarn => w[4] += 40,
        Focus::Comment => w[5] += 40,
        Focus::Mark => {
            w[6] += 30;
            w[7] += 20
        }
    }
    match t.weighted(&w) {
        0 => out.push_str(t.pick(BLANKS)),
        1 => {
            let p = *t.pick(PHRASES);
            match t.weighted(&[60, 6, 6, 6, 6, 6]) {
                1 => out.push_str(&p.replace(' ', "  ")),
                2 => out.push_str(&p.to_lowercase()),
                3 => out.push_str(&p[..1 + t.below(p.len())]),
                4 => out.push_str(&p.replace(' ', t.pick(&["\t", "\n", "_", "", "\r", "\u{a0}", "\u{2003}", "\u{3000}", "-", " \t", "...", ","]))),
                5 => out.push_str(&format!("{}{p}{}", t.pick(&["", "_", "x", "0"]), t.pick(&["", "_", "x", "0", "é"]))),
                _ => out.push_str(p),
            }
        }
        2 => out.push_str(&gen::name(t)),
        3 => {
            if t.chance(100) {
                out.push_str(&number(t).text());
            } else {
                out.push_str(t.pick(NUMBERS));
            }
        }
        4 => {
            let c = gen::yarn_contents(t, true);
            match t.weighted(&[60, 6, 6, 6]) {
                1 => out.push_str(&format!("\"{c}")),
                2 => out.push_str(&format!("{c}\"")),
                3 => out.push_str(&format!("\"{c}:\"")),
                _ => out.push_str(&format!("\"{c}\"")),
            }
        }
        5 => {
            if t.chance(128) {
                out.push_str(t.pick(COMMENTS));
            } else {
                let c = comment_text(t);
                if t.chance(128) {
                    out.push_str(&format!("BTW{c}\n"));
                } else {
                    out.push_str(&format!("OBTW{c}TLDR"));
                }
            }
        }
        6 => out.push_str(t.pick(MARKS)),
        7 => out.push(any_char(t)),
        8 => {
            let c = any_char(t);
            for _ in 0..1 + t.below(4) {
                out.push(c);
            }
        }
        _ if t.chance(30) => out.push_str(dict::text(t).unwrap_or("IT")),
        _ => out.push_str(t.pick(gen::FRAGMENTS)),
    }
    // Fragments mostly stand apart
    if t.chance(110) {
        out.push_str(if t.chance(60) { t.pick(BLANKS) } else { " " });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Focus {
    Any,
    Keyword,
    Name,
    Number,
    Yarn,
    Comment,
    Mark,
}

pub fn soup(t: &mut Tape, focus: Focus) -> String {
    let mut out = String::new();
    let n = 1 + t.size(225, 60);
    for _ in 0..n {
        fragment(t, focus, &mut out);
    }
    out
}

fn noise(t: &mut Tape) -> String {
    (0..t.size(235, 80)).map(|_| any_char(t)).collect()
}

/// A program's text with some of its characters deleted, replaced, inserted, moved or cut off
pub fn broken_program(t: &mut Tape) -> String {
    let (mut p, mut rest) = t.split(60);
    let (em, _) = gen::program(&mut p);
    let (mut l, mut t) = rest.split(60);
    let mut s = layout::layout(&em.segs, &mut l, FREE).src;
    for _ in 0..t.size(150, 8) {
        let chars: Vec<char> = s.chars().collect();
        if chars.is_empty() {
            break;
        }
        let i = t.below(chars.len());
        let join = |a: &[char], m: &str, b: &[char]| {
            let mut r: String = a.iter().collect();
            r.push_str(m);
            r.extend(b);
            r
        };
        s = match t.weighted(&[30, 20, 20, 20, 10]) {
            0 => join(&chars[..i], "", &chars[i + 1..]),
            1 => {
                let mut f = String::new();
                fragment(&mut t, Focus::Any, &mut f);
                join(&chars[..i], &f, &chars[i..])
            }
            2 => {
                let mut f = String::new();
                fragment(&mut t, Focus::Mark, &mut f);
                join(&chars[..i], &f, &chars[i + 1..])
            }
            3 => join(&chars[..i], "", &[]),
            _ => {
                let j = (i + 1 + t.below(20)).min(chars.len());
                join(&chars[..i], "", &chars[j..])
            }
        };
    }
    s
}

/// A long text: something small, many times over
pub fn big(t: &mut Tape) -> String {
    let mut bit = String::new();
    for _ in 0..1 + t.below(4) {
        fragment(t, Focus::Any, &mut bit);
    }
    if bit.is_empty() {
        bit.push('\n');
    }
    let target = match t.weighted(&[40, 3, 1]) {
        // Overlong numbers take quadratic time
        _ if bit.bytes().all(|b| b.is_ascii_digit() || b"+-.".contains(&b)) => 400 + t.below(2000),
        0 => 400 + t.below(3000),
        1 => 10_000 + t.below(10_000),
        _ => 66_000 + t.below(3000),
    };
    // What is open in the repeated part (a yarn, a comment) stays open or closes in the next copy
    let mut s = bit.repeat(target / bit.len() + 1);
    if t.chance(128) {
        fragment(t, Focus::Any, &mut s);
    }
    s
}

/// Any text at all
pub fn any_text(t: &mut Tape, focus: Focus) -> (String, &'static str) {
    match t.weighted(&[120, 60, 30, 1]) {
        0 => (soup(t, focus), "fragments"),
        1 => (broken_program(t), "mutated program"),
        2 => (noise(t), "unicode noise"),
        _ => (big(t), "big text"),
    }
}

/// Numbers, also those whose nearest 32-bit float is hard to find
pub fn number(t: &mut Tape) -> W {
    match t.weighted(&[30, 20, 10]) {
        0 => gen::int_literal(t),
        1 => gen::float_literal(t),
        _ => {
            // Just above, just below or exactly at the middle between two 32-bit floats
            let exponent = if t.chance(200) { 127 - 20 + t.below(44) as u32 } else { t.below(254) as u32 };
            let bits = exponent << 23 | (t.u32() & 0x7f_ffff);
            let a = f32::from_bits(bits);
            let b = f32::from_bits(bits + 1);
            let mid = (a as f64 + b as f64) / 2.0;
            let mut text = if exponent > 60 { format!("{mid:.60}") } else { format!("{mid:.170}") };
            match t.below(4) {
                0 => {}
                // The shortest decimal of a float
                3 => {
                    text = a.to_string();
                    if !text.contains('.') {
                        text.push('.');
                    }
                }
                1 => text.push('1'),
                _ => {
                    // Subtract one from the last non-zero digit, then nines
                    let trimmed = text.trim_end_matches('0').to_string();
                    let mut bytes = trimmed.into_bytes();
                    if let Some(last) = bytes.last_mut() {
                        if last.is_ascii_digit() {
                            *last -= 1;
                        }
                    }
                    text = String::from_utf8(bytes).unwrap();
                    if !text.contains('.') {
                        text.push('.');
                    }
                    text.push_str("99999999999999999999");
                }
            }
            if t.chance(60) {
                text.insert(0, '-');
            }
            let v = text.parse().expect("a float");
            W::Float(text, v)
        }
    }
}

#[derive(Clone, Debug)]
pub struct Lexeme {
    pub text: String,
    pub kind: TokenType,
    class: Focus,
}

fn word(w: W, class: Focus) -> Lexeme {
    Lexeme { text: w.text(), kind: w.token_type(), class }
}

pub fn lexeme(t: &mut Tape, class: Focus) -> Lexeme {
    match class {
        Focus::Keyword | Focus::Any => {
            let p = *t.pick(PHRASES);
            match p {
                "BTW" | "OBTW" => word(W::Kw("AN"), Focus::Keyword),
                "WIN" => word(W::Bool(true), Focus::Keyword),
                "FAIL" => word(W::Bool(false), Focus::Keyword),
                "NOOB" => word(W::Noob, Focus::Keyword),
                p => word(W::Kw(p), Focus::Keyword),
            }
        }
        Focus::Name => {
            let mut n = gen::name(t);
            if t.chance(1) {
                n.push_str(&"z".repeat(70_000));
            }
            word(W::Id(n), class)
        }
        Focus::Number => match t.weighted(&[60, 6, 6, 6]) {
            1 => word(W::Bool(true), Focus::Keyword),
            2 => word(W::Bool(false), Focus::Keyword),
            3 => word(W::Noob, Focus::Keyword),
            _ => word(number(t), class),
        },
        Focus::Yarn => {
            let c = gen::yarn_contents(t, true);
            word(W::Yarn(c), class)
        }
        Focus::Comment => {
            let mut c = comment_text(t);
            if t.chance(60) {
                c.pop();
            }
            if t.chance(1) {
                c.push_str(&"y ".repeat(35_000));
            }
            if t.chance(128) {
                Lexeme { text: format!("BTW{c}"), kind: TokenType::CommentSingleLine(c), class }
            } else {
                for _ in 0..t.size(150, 10) {
                    c.push_str(t.pick(&["\n", "\r\n", "\n\n"]));
                    c.push_str(&comment_text(t));
                }
                // What ends in TLD, TL or T could make up a TLDR with what follows; it cannot
                Lexeme { text: format!("OBTW{c}TLDR"), kind: TokenType::CommentMultiLine(c), class }
            }
        }
        Focus::Mark => match t.weighted(&[6, 6, 6, 6, 6, 4, 30]) {
            0 => Lexeme { text: ",".into(), kind: TokenType::Comma, class },
            1 => word(W::Bang, class),
            2 => word(W::Quest, class),
            3 => word(W::Slot, class),
            4 => Lexeme { text: "...".into(), kind: TokenType::Ellipsis, class },
            5 => Lexeme { text: "\u{2026}".into(), kind: TokenType::Ellipsis, class },
            _ => {
                let c = if t.chance(128) {
                    match gen::symbol(t) {
                        W::Sym(s) => s.chars().next().unwrap(),
                        _ => unreachable!(),
                    }
                } else {
                    any_char(t)
                };
                if c.is_ascii_alphanumeric() || " \t\r\n_,!?\"\u{2026}".contains(c) {
                    word(W::Sym("@".into()), class)
                } else {
                    word(W::Sym(c.to_string()), class)
                }
            }
        },
    }
}

/// The same lexeme again, or one that differs in a detail: case, one character, the length
fn relative(t: &mut Tape, of: &Lexeme) -> Lexeme {
    let mut detail = |s: &str| -> String {
        let mut c: Vec<char> = s.chars().collect();
        match t.weighted(&[30, 20, 20, 10, 10, 10]) {
            0 => {}
            1 => return s.to_ascii_lowercase(),
            2 => return s.to_ascii_uppercase(),
            3 if !c.is_empty() => {
                let i = t.below(c.len());
                if c[i].is_ascii_lowercase() {
                    c[i] = c[i].to_ascii_uppercase();
                } else if c[i].is_ascii_uppercase() {
                    c[i] = c[i].to_ascii_lowercase();
                }
            }
            4 if !c.is_empty() => {
                let i = t.below(c.len());
                if c[i].is_ascii_alphanumeric() && i > 0 {
                    c[i] = *t.pick(&['a', 'Q', '7']);
                }
            }
            _ => c.push('q'),
        }
        c.into_iter().collect()
    };
    match &of.kind {
        TokenType::Identifier(n) => {
            let n = gen::fix_name(detail(n));
            word(W::Id(n), Focus::Name)
        }
        TokenType::Value(TokenValue::String(s)) => {
            let s = detail(s);
            // The detail can only break an escape at the end
            if s.ends_with(':') { of.clone() } else { word(W::Yarn(s), Focus::Yarn) }
        }
        TokenType::CommentSingleLine(s) => {
            let s = detail(s);
            Lexeme { text: format!("BTW{s}"), kind: TokenType::CommentSingleLine(s), class: of.class }
        }
        TokenType::CommentMultiLine(s) => {
            let s = detail(s);
            if format!("{s}TLDR").find("TLDR") != Some(s.len()) {
                return of.clone();
            }
            Lexeme { text: format!("OBTW{s}TLDR"), kind: TokenType::CommentMultiLine(s), class: of.class }
        }
        _ => of.clone(),
    }
}

/// Whether the two lexemes keep being themselves when they touch
fn tight(a: &Lexeme, b: &Lexeme) -> bool {
    if matches!(a.kind, TokenType::CommentSingleLine(_)) {
        return false;
    }
    let x = a.text.chars().last().unwrap();
    let y = b.text.chars().next().unwrap();
    if is_word_char(x) && is_word_char(y) {
        // The Z of a slot access is not part of a word, nor is the end of a comment
        return matches!(a.kind, TokenType::BukkitSlotAccess | TokenType::CommentMultiLine(_));
    }
    let numeric = |c: char| c.is_ascii_digit() || "+-.".contains(c);
    if a.class == Focus::Number && numeric(y) || b.class == Focus::Number && numeric(x) {
        return false;
    }
    if x == '.' && y == '.' {
        return false;
    }
    !(a.text == "'" && y == 'Z')
}

/// A text made of lexemes, and the tokens it must give
pub fn lexemes(t: &mut Tape, focus: Focus) -> (Vec<Lexeme>, Laid) {
    let mut list: Vec<Lexeme> = vec![];
    for _ in 0..1 + t.size(200, 24) {
        let class = if t.chance(150) {
            focus
        } else {
            *t.pick(&[Focus::Name, Focus::Keyword, Focus::Number, Focus::Mark, Focus::Yarn, Focus::Comment])
        };
        let new = match list.len() {
            n if n > 0 && t.chance(36) => {
                let old = list[t.below(n)].clone();
                relative(t, &old)
            }
            _ => lexeme(t, class),
        };
        list.push(new);
    }
    let laid = write(t, &list);
    (list, laid)
}

/// Writes the lexemes with any blank space that keeps them apart
pub fn write(t: &mut Tape, list: &[Lexeme]) -> Laid {
    let mut w = Writer::new();
    if t.chance(60) {
        w.blank(t.pick(BLANKS));
    }
    for (i, l) in list.iter().enumerate() {
        if i > 0 {
            let a = &list[i - 1];
            if matches!(a.kind, TokenType::CommentSingleLine(_)) {
                w.blank(t.pick(&["\n", "\n\n", "\n "]));
            } else if tight(a, l) && t.chance(128) {
            } else {
                let blank = if t.chance(128) { *t.pick(BLANKS) } else { " " };
                w.blank(blank);
                let merges = matches!(&a.kind, TokenType::Identifier(n) if starts_phrase(n));
                if blank == " " && merges {
                    w.blank(" ");
                }
            }
        }
        w.token(&l.text, l.kind.clone());
    }
    if t.chance(80) {
        let last_is_btw = matches!(list.last().map(|l| &l.kind), Some(TokenType::CommentSingleLine(_)));
        w.blank(if last_is_btw { "\n" } else { t.pick(BLANKS) });
    }
    w.finish()
}
