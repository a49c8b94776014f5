//! Writing statements (lists of words) out as text, in any of the layouts that must not matter,
//! together with the exact tokens that text consists of.

use crate::dict;
use crate::tape::Tape;
use crate::words::*;
use lolcode_ast::lexer::{Position, Range, Token, TokenType};

pub type Seg = Vec<W>;

/// A text and its tokens, as they should be
#[derive(Clone, Debug)]
pub struct Laid {
    pub src: String,
    pub tokens: Vec<Token>,
}

pub struct Writer {
    pub src: String,
    pub tokens: Vec<Token>,
    line: i32,
    column: i32,
    chars: i32,
}

impl Writer {
    pub fn new() -> Self {
        Writer { src: String::new(), tokens: vec![], line: 1, column: 1, chars: 0 }
    }
    fn position(&self) -> Position {
        Position {
            line: self.line,
            column: self.column,
            bytes: self.src.len() as i32,
            chars: self.chars,
        }
    }
    fn advance(&mut self, text: &str) {
        for c in text.chars() {
            self.src.push(c);
            self.chars += 1;
            if c == '\n' {
                self.line += 1;
                self.column = 1;
            } else {
                self.column += c.len_utf8() as i32;
            }
        }
    }
    pub fn blank(&mut self, text: &str) {
        self.advance(text)
    }
    pub fn token(&mut self, text: &str, token_type: TokenType) {
        let start = self.position();
        self.advance(text);
        let range = Range(start, self.position());
        self.tokens.push(Token { range, token_type });
    }
    pub fn word(&mut self, w: &W) {
        self.token(&w.text(), w.token_type())
    }
    fn at_line_start(&self) -> bool {
        self.src.is_empty() || self.src.ends_with('\n')
    }
    fn ends_blank(&self) -> bool {
        self.src.is_empty() || self.src.ends_with([' ', '\t', '\n', '\r'])
    }
    pub fn finish(self) -> Laid {
        Laid { src: self.src, tokens: self.tokens }
    }
}

/// Which layout freedoms are used
#[derive(Clone, Copy)]
pub struct Style {
    pub comments: bool,
    pub ellipses: bool,
    pub commas: bool,
    pub blanks: bool,
}

pub const FREE: Style = Style { comments: true, ellipses: true, commas: true, blanks: true };
pub const PLAIN: Style = Style { comments: false, ellipses: false, commas: false, blanks: false };

/// The plain layout: one space between words, one line per statement
pub fn plain(segs: &[Seg]) -> Laid {
    layout(segs, &mut Tape::new(&[]), PLAIN)
}

/// Whether the two words may stand next to each other without a blank
fn tight(a: &W, b: &W) -> bool {
    match (a, b) {
        (W::Sym(_), _) | (_, W::Sym(_)) => false,
        (W::Yarn(_) | W::Slot | W::Bang | W::Quest, _) => true,
        (_, W::Yarn(_) | W::Slot | W::Bang | W::Quest) => true,
        _ => false,
    }
}

const COMMENT_BITS: &[&str] = &[
    " ", "a comment", "TLD", "VISIBLE \"x\"", "KTHXBYE", "...", ",", "OIC", "é", "日本語", "😀", "\"",
    ":\"", "'Z", "!", "?", "BTW", "OBTW", "1.5", "\t", "O RLY?", "IF U SAY SO", "R", "\u{a0}", "x_y",
    "LDR", "HAI 1.2",
];

/// The contents of a comment: no newline, no TLDR
pub fn comment_text(t: &mut Tape) -> String {
    let mut out = String::new();
    for _ in 0..t.size(140, 200) {
        if t.chance(3) {
            out.push_str(&dict::text(t).unwrap_or("").replace('\n', ""));
        } else {
            out.push_str(t.pick(COMMENT_BITS));
        }
    }
    if t.chance(2) {
        let n = dict::count(t, 5000).unwrap_or(0);
        out.push_str(&"c".repeat(n.saturating_sub(out.len() + t.below(2))));
    }
    while out.contains("TLDR") {
        out = out.replace("TLDR", "TLD");
    }
    // A comment that ends like that would make the TLDR after it start earlier
    out.push(' ');
    out
}

fn blanks(t: &mut Tape, style: Style) -> &'static str {
    if !style.blanks {
        return " ";
    }
    if t.chance(1) {
        const WIDE: &str = concat!(
            "                                                                                ",
            "                                                                                ",
            "                                                                                ",
            "                                                                                "
        );
        let n = if t.chance(100) { dict::count(t, WIDE.len() - 1) } else { None };
        return &WIDE[..n.unwrap_or(1 + t.below(WIDE.len()))];
    }
    const B: &[&str] = &[" ", " ", " ", "  ", "\t", " \t ", "\t\t", "    ", "\r", "                "];
    t.pick(B)
}

fn line_end(t: &mut Tape) -> &'static str {
    t.pick(&["\n", "\n", "\n", "\r\n"])
}

fn btw(w: &mut Writer, t: &mut Tape) {
    let c = comment_text(t);
    if !w.ends_blank() {
        w.blank(" ");
    }
    w.token(&format!("BTW{c}"), TokenType::CommentSingleLine(c));
}

fn obtw(w: &mut Writer, t: &mut Tape, multi_line: bool) {
    let mut c = comment_text(t);
    if multi_line {
        let lines = if t.chance(4) { dict::count(t, 400).unwrap_or(200 + t.below(200)) } else { t.size(150, 8) };
        for _ in 0..lines {
            c.push_str(line_end(t));
            // Some of the lines are empty
            if lines <= 8 && !t.chance(90) {
                c.push_str(&comment_text(t));
            }
        }
    }
    if !w.ends_blank() {
        w.blank(" ");
    }
    w.token(&format!("OBTW{c}TLDR"), TokenType::CommentMultiLine(c));
}

/// What stands between two words of one statement
fn gap(w: &mut Writer, a: &W, b: &W, t: &mut Tape, style: Style) {
    let choice = t.weighted(&[60, 16, 16, 6, 10, 1]);
    match choice {
        1 if style.blanks && tight(a, b) => {}
        2 => w.blank(blanks(t, style)),
        3 if style.comments => {
            w.blank(" ");
            obtw(w, t, false);
            w.blank(blanks(t, style));
        }
        4 if style.ellipses => {
            let rounds = 1 + if t.chance(2) { dict::count(t, 300).unwrap_or(t.below(300)) } else { t.chance(40) as usize };
            for round in 0..rounds {
                // A number must not meet the dots
                let touch = matches!(a, W::Id(_) | W::Kw(_) | W::Yarn(_) | W::Bool(_) | W::Noob)
                    && round == 0
                    && t.chance(80);
                if !touch {
                    w.blank(blanks(t, style));
                }
                let dots = *t.pick(&["...", "...", "\u{2026}"]);
                w.token(dots, TokenType::Ellipsis);
                let mut end = line_end(t);
                if style.comments && t.chance(50) {
                    if t.chance(128) {
                        btw(w, t);
                        end = "\n";
                    } else {
                        obtw(w, t, false);
                    }
                } else if t.chance(60) {
                    w.blank(blanks(t, style));
                }
                w.blank(end);
                while t.chance(20) {
                    // Lines that hold nothing do not end the continuation
                    lines(w, t, style);
                }
            }
            if t.chance(160) {
                w.blank(blanks(t, style));
            }
        }
        5 if style.ellipses => {
            // An ellipsis in the middle of a line continues it just the same
            w.blank(" ");
            ellipsis(w, t);
            w.blank(blanks(t, style));
        }
        _ => {
            w.blank(" ");
        }
    }
    // A name such as HAS and a following A are two words only if not exactly one space apart
    if let W::Id(n) = a {
        if starts_phrase(n) && w.src.ends_with(' ') && w.src[..w.src.len() - 1].ends_with(&n[..]) {
            w.blank(" ");
        }
    }
}

fn ellipsis(w: &mut Writer, t: &mut Tape) {
    let dots = *t.pick(&["...", "...", "\u{2026}"]);
    w.token(dots, TokenType::Ellipsis);
}

/// A blank line, or a comment that stands alone
fn lines(w: &mut Writer, t: &mut Tape, style: Style) {
    match t.below(3) {
        1 if style.comments => {
            btw(w, t);
            w.blank("\n");
        }
        2 if style.comments => {
            obtw(w, t, true);
            w.blank("\n");
        }
        _ => {
            w.blank(blanks(t, style));
            w.blank(line_end(t));
        }
    }
}

/// What stands before the first statement, or on lines of its own between statements
fn filler(w: &mut Writer, t: &mut Tape, style: Style) {
    match t.weighted(&[20, 6, 4, 4, 4, 1]) {
        1 => w.blank("\n"),
        2 => w.blank("\r\n"),
        3 if style.comments => {
            w.blank(blanks(t, style));
            btw(w, t);
            w.blank("\n");
        }
        4 if style.comments => {
            obtw(w, t, true);
            w.blank("\n");
        }
        5 => {
            // Rarely, many blank lines
            let n = if t.chance(20) { dict::count(t, 3000).unwrap_or(300) } else { 5 };
            w.blank(&"\n".repeat(n));
        }
        _ => {}
    }
}

fn separator(w: &mut Writer, t: &mut Tape, style: Style) {
    match t.weighted(&[40, 10, 14, 6, 6, 6, 6, 3]) {
        1 if style.blanks => w.blank("\r\n"),
        2 if style.commas => {
            if t.chance(60) {
                w.blank(blanks(t, style));
            }
            if style.ellipses && t.chance(12) {
                w.blank(" ");
                ellipsis(w, t);
                if t.chance(100) {
                    w.blank(line_end(t));
                }
            }
            w.token(",", TokenType::Comma);
            if style.ellipses && t.chance(12) {
                ellipsis(w, t);
                w.blank(if t.chance(128) { " " } else { "\n" });
            }
            if t.chance(180) {
                w.blank(blanks(t, style));
            }
            return;
        }
        3 if style.commas => {
            w.token(",", TokenType::Comma);
            if style.comments && t.chance(60) {
                btw(w, t);
            }
            w.blank("\n");
        }
        4 if style.comments => {
            btw(w, t);
            w.blank("\n");
        }
        5 if style.comments => {
            w.blank(" ");
            obtw(w, t, true);
            w.blank(line_end(t));
        }
        6 if style.blanks => {
            w.blank(blanks(t, style));
            w.blank(line_end(t));
        }
        7 if style.commas => {
            for _ in 0..1 + if t.chance(4) { dict::count(t, 300).unwrap_or(t.below(300)) } else { t.below(3) } {
                w.token(",", TokenType::Comma);
                if t.chance(100) {
                    w.blank(blanks(t, style));
                }
            }
            if t.chance(128) {
                w.blank("\n");
                w.token(",", TokenType::Comma);
                w.blank("\n");
            }
            return;
        }
        _ => w.blank("\n"),
    }
    if style.blanks {
        let n = if t.chance(1) { t.below(60) } else { t.size(40, 4) };
        for _ in 0..n {
            filler(w, t, style);
        }
        if t.chance(90) {
            w.blank(blanks(t, style));
        }
        if style.ellipses && t.chance(5) {
            // Continues nothing
            ellipsis(w, t);
            w.blank(if t.chance(128) { " " } else { "\n" });
        }
    }
}

pub fn layout(segs: &[Seg], t: &mut Tape, style: Style) -> Laid {
    let mut w = Writer::new();
    if style.blanks {
        for _ in 0..t.size(60, 4) {
            filler(&mut w, t, style);
        }
        if t.chance(40) {
            w.blank(blanks(t, style));
        }
    }
    for (i, seg) in segs.iter().enumerate() {
        if i > 0 {
            separator(&mut w, t, style);
        }
        for (j, word) in seg.iter().enumerate() {
            if j > 0 {
                gap(&mut w, &seg[j - 1], word, t, style);
            }
            w.word(word);
        }
    }
    if style.blanks {
        match t.weighted(&[20, 10, 4, 4, 4, 4, 2, 2]) {
            1 => w.blank("\n"),
            2 => w.blank("\r\n"),
            3 if style.comments => btw(&mut w, t),
            4 if style.comments => obtw(&mut w, t, true),
            5 if style.commas => w.token(",", TokenType::Comma),
            6 => w.blank(" \t \n\n"),
            7 if style.ellipses => {
                w.blank(if t.chance(128) { " " } else { "\n" });
                ellipsis(&mut w, t);
                if t.chance(128) {
                    w.blank("\n");
                }
            }
            _ => {}
        }
    } else {
        w.blank("\n");
    }
    debug_assert!(!w.at_line_start() || w.column == 1);
    w.finish()
}
