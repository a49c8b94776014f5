//! Constants that occur in the sources of the crate under test, as fuzzers collect them into their
//! dictionaries: numbers, at which something may change, and pieces of text. They only suggest
//! inputs to the generators; no oracle knows them.

use crate::tape::Tape;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub counts: Vec<usize>,
    pub texts: Vec<String>,
    pub chars: Vec<char>,
}

/// What is in most sources and says nothing
const DULL: &[&str] = &["", " ", "\n", "?", "!", ",", "...", "'Z", "\"", ":", "_"];

fn escape(chars: &mut std::iter::Peekable<std::str::Chars>) -> Option<char> {
    Some(match chars.next()? {
        'n' => '\n',
        't' => '\t',
        'r' => '\r',
        '0' => '\0',
        'x' => {
            let digits: String = [chars.next()?, chars.next()?].iter().collect();
            char::from(u8::from_str_radix(&digits, 16).ok()?)
        }
        'u' => {
            let mut digits = String::new();
            chars.next();
            for c in chars.by_ref() {
                if c == '}' {
                    break;
                }
                digits.push(c);
            }
            char::from_u32(u32::from_str_radix(&digits, 16).ok()?)?
        }
        c => c,
    })
}

fn collect(source: &str, counts: &mut BTreeSet<usize>, texts: &mut BTreeSet<String>, chars_: &mut BTreeSet<char>) {
    let source = source.split("#[cfg(test)]\nmod ").next().unwrap();
    let mut chars = source.chars().peekable();
    let mut word = false;
    while let Some(c) = chars.next() {
        match c {
            '/' if chars.peek() == Some(&'/') => {
                for c in chars.by_ref() {
                    if c == '\n' {
                        break;
                    }
                }
            }
            '"' => {
                let mut s = String::new();
                while let Some(c) = chars.next() {
                    match c {
                        '"' => break,
                        '\\' => s.extend(escape(&mut chars)),
                        c => s.push(c),
                    }
                }
                if s.len() <= 40 {
                    texts.insert(s);
                }
            }
            '\'' => {
                let mut ahead = chars.clone();
                let c = match ahead.next() {
                    Some('\\') => escape(&mut ahead),
                    c => c,
                };
                // Otherwise, a lifetime
                if ahead.next() == Some('\'') {
                    chars_.extend(c);
                    chars = ahead;
                }
            }
            c if c.is_ascii_digit() && !word => {
                let mut digits = String::from(c);
                while let Some(c) = chars.next_if(|c| c.is_ascii_alphanumeric() || *c == '_') {
                    digits.push(c);
                }
                let digits = digits.replace('_', "");
                let number = match digits.strip_prefix("0x") {
                    Some(hex) => usize::from_str_radix(hex, 16).ok(),
                    None => {
                        let end = digits.find(|c: char| !c.is_ascii_digit()).unwrap_or(digits.len());
                        digits[..end].parse().ok()
                    }
                };
                counts.extend(number);
            }
            _ => {}
        }
        word = c.is_alphanumeric() || c == '_';
    }
}

fn sources(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let path = e.path();
        if path.is_dir() {
            sources(&path, out);
        } else if path.extension().is_some_and(|x| x == "rs") && !path.ends_with("tests.rs") {
            out.push(path);
        }
    }
}

pub fn dict() -> &'static Dict {
    static DICT: OnceLock<Dict> = OnceLock::new();
    DICT.get_or_init(|| {
        let manifest = include_str!("../Cargo.toml");
        let root = manifest.split("path = \"").nth(1).and_then(|s| s.split('"').next()).unwrap_or("/repo");
        let mut files = vec![];
        sources(&std::path::Path::new(root).join("src"), &mut files);
        files.sort();
        let (mut counts, mut texts, mut chars) = Default::default();
        for f in files {
            collect(&std::fs::read_to_string(f).unwrap_or_default(), &mut counts, &mut texts, &mut chars);
        }
        // More constants, to try the generators with
        if let Ok(more) = std::env::var("HARNESS_DICT") {
            collect(&more, &mut counts, &mut texts, &mut chars);
        }
        Dict {
            counts: counts.into_iter().filter(|n| (4..=70_000).contains(n)).collect(),
            texts: texts.into_iter().filter(|s| !DULL.contains(&&s[..]) && !s.contains('{')).collect(),
            chars: chars.into_iter().filter(|c| !c.is_ascii_alphanumeric() && *c != ' ').collect(),
        }
    })
}

/// A number near one of the constants, not above `max`
pub fn count(t: &mut Tape, max: usize) -> Option<usize> {
    let (a, b) = (t.byte() as usize, t.byte() as usize);
    let counts = &dict().counts;
    let fitting = counts.partition_point(|n| *n < max);
    if fitting == 0 {
        return None;
    }
    Some(counts[a % fitting] + 1 - b % 3)
}

pub fn text(t: &mut Tape) -> Option<&'static str> {
    let a = t.byte() as usize;
    let texts = &dict().texts;
    (!texts.is_empty()).then(|| &texts[a % texts.len()][..])
}

pub fn char(t: &mut Tape) -> Option<char> {
    let a = t.byte() as usize;
    let chars = &dict().chars;
    (!chars.is_empty()).then(|| chars[a % chars.len()])
}
