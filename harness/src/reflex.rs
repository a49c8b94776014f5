//! The reference tokenizer: LOLCODE's lexical rules, written from their description and not from
//! the crate's code, over character positions, with positions recomputed from the text itself.

use crate::words::*;
use lolcode_ast::lexer::{NumberToken, Position, Range, Token, TokenType, TokenValue};

/// The tokens, or the character offset of a comment that is never closed
pub fn lex(src: &str) -> Result<Vec<(TokenType, usize, usize)>, usize> {
    let chars: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let n = chars.len();
    let at = |i: usize, s: &str| s.chars().enumerate().all(|(k, c)| chars.get(i + k) == Some(&c));
    let text = |a: usize, b: usize| chars[a..b].iter().collect::<String>();
    while i < n {
        let c = chars[i];
        if matches!(c, ' ' | '\t' | '\r' | '\n') {
            i += 1;
            continue;
        }
        // Comments
        if at(i, "BTW") {
            let mut e = i + 3;
            while e < n && chars[e] != '\n' {
                e += 1;
            }
            out.push((TokenType::CommentSingleLine(text(i + 3, e)), i, e));
            i = e;
            continue;
        }
        if at(i, "OBTW") {
            let mut e = i + 4;
            loop {
                if e >= n {
                    return Err(i);
                }
                if at(e, "TLDR") {
                    break;
                }
                e += 1;
            }
            out.push((TokenType::CommentMultiLine(text(i + 4, e)), i, e + 4));
            i = e + 4;
            continue;
        }
        // Words
        if c == '_' || c.is_ascii_alphabetic() {
            let mut best: Option<&str> = None;
            for p in PHRASES {
                let e = i + p.chars().count();
                let ends = e >= n || !is_word_char(chars[e]);
                if at(i, p) && ends && best.map_or(true, |b| b.len() < p.len()) {
                    best = Some(p);
                }
            }
            if let Some(p) = best {
                let e = i + p.chars().count();
                let kind = match p {
                    "WIN" => TokenType::Value(TokenValue::Boolean(true)),
                    "FAIL" => TokenType::Value(TokenValue::Boolean(false)),
                    "NOOB" => TokenType::Value(TokenValue::NOOB),
                    p => TokenType::Keyword(keyword(p)),
                };
                out.push((kind, i, e));
                i = e;
                continue;
            }
            let mut e = i;
            while e < n && is_word_char(chars[e]) {
                e += 1;
            }
            out.push((TokenType::Identifier(text(i, e)), i, e));
            i = e;
            continue;
        }
        // Yarns
        if c == '"' {
            let mut e = i + 1;
            let mut closed = false;
            while e < n {
                if chars[e] == ':' && e + 1 < n && matches!(chars[e + 1], ':' | '"') {
                    e += 2;
                } else if chars[e] == '"' {
                    closed = true;
                    break;
                } else {
                    e += 1;
                }
            }
            let e = e.min(n);
            out.push((TokenType::Value(TokenValue::String(text(i + 1, e))), i, e + closed as usize));
            i = e + closed as usize;
            continue;
        }
        // Punctuation
        let fixed: Option<(TokenType, usize)> = if at(i, "...") {
            Some((TokenType::Ellipsis, 3))
        } else if at(i, "\u{2026}") {
            Some((TokenType::Ellipsis, 1))
        } else if at(i, "'Z") {
            Some((TokenType::BukkitSlotAccess, 2))
        } else {
            match c {
                ',' => Some((TokenType::Comma, 1)),
                '!' => Some((TokenType::ExclamationMark, 1)),
                '?' => Some((TokenType::QuestionMark, 1)),
                _ => None,
            }
        };
        if let Some((kind, len)) = fixed {
            out.push((kind, i, i + len));
            i += len;
            continue;
        }
        // Numbers: a sign, digits, at most one point among them
        let mut e = i + matches!(c, '+' | '-') as usize;
        let mut point = false;
        while e < n && (chars[e].is_ascii_digit() || (!point && chars[e] == '.')) {
            point |= chars[e] == '.';
            e += 1;
        }
        if e > i {
            let s = text(i, e);
            let number = if point {
                s.parse().ok().map(NumberToken::Float)
            } else {
                s.parse().ok().map(NumberToken::Int)
            };
            if let Some(number) = number {
                out.push((TokenType::Value(TokenValue::Number(number)), i, e));
                i = e;
                continue;
            }
        }
        out.push((TokenType::Symbol(c.to_string()), i, i + 1));
        i += 1;
    }
    Ok(out)
}

/// Positions by definition: counted from the start of the text
pub struct Positions {
    byte_of_char: Vec<usize>,
    /// Line number and the byte where the line starts, per character
    line: Vec<(usize, usize)>,
}

impl Positions {
    pub fn new(src: &str) -> Self {
        let mut byte_of_char = vec![];
        let mut line = vec![];
        let mut cur = (1, 0);
        for (b, c) in src.char_indices() {
            byte_of_char.push(b);
            line.push(cur);
            if c == '\n' {
                cur = (cur.0 + 1, b + 1);
            }
        }
        byte_of_char.push(src.len());
        line.push(cur);
        Positions { byte_of_char, line }
    }
    pub fn at(&self, char_index: usize) -> Position {
        let b = self.byte_of_char[char_index];
        let (line, start) = self.line[char_index];
        Position {
            line: line as i32,
            column: (b - start + 1) as i32,
            bytes: b as i32,
            chars: char_index as i32,
        }
    }
    pub fn char_at_byte(&self, byte: usize) -> Option<usize> {
        self.byte_of_char.binary_search(&byte).ok()
    }
}

pub fn tokens(src: &str) -> Result<Vec<Token>, usize> {
    let p = Positions::new(src);
    Ok(lex(src)?
        .into_iter()
        .map(|(token_type, a, b)| Token { token_type, range: Range(p.at(a), p.at(b)) })
        .collect())
}
