//! Reading the crate's trees through their `Debug` output, into a generic tree whose tokens are
//! indices into the input. Positions are thereby replaced by identity: two layouts of one program
//! have equal trees exactly when they have the same structure over the same words.

use lolcode_ast::lexer::Token;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

type Name = Cow<'static, str>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tree {
    /// `Name { field: value, .. }`; the order of the fields does not matter
    S(Name, BTreeMap<Name, Tree>),
    /// `Name(value, ..)`
    T(Name, Vec<Tree>),
    L(Vec<Tree>),
    U(Name),
    Tok(usize),
    /// A token that is not one of the input's
    Alien(String),
}

pub fn s(name: &'static str, fields: Vec<(&'static str, Tree)>) -> Tree {
    Tree::S(name.into(), fields.into_iter().map(|(k, v)| (Name::from(k), v)).collect())
}
pub fn t(name: &'static str, of: Tree) -> Tree {
    Tree::T(name.into(), vec![of])
}
pub fn none() -> Tree {
    Tree::U("None".into())
}
pub fn some(of: Tree) -> Tree {
    t("Some", of)
}
pub fn opt(of: Option<Tree>) -> Tree {
    of.map_or_else(none, some)
}
pub fn block(nodes: Vec<Tree>) -> Tree {
    t("ASTBlock", Tree::L(nodes))
}

impl Tree {
    pub fn name(&self) -> &str {
        match self {
            Tree::S(n, _) | Tree::T(n, _) | Tree::U(n) => n,
            _ => "",
        }
    }
    pub fn field(&self, name: &str) -> Option<&Tree> {
        match self {
            Tree::S(_, f) => f.get(name),
            _ => None,
        }
    }
    pub fn get(&self, name: &str) -> Result<&Tree, String> {
        self.field(name).ok_or_else(|| format!("no field {name} in {}", self.show()))
    }
    pub fn inner(&self) -> Result<&Tree, String> {
        match self {
            Tree::T(_, v) if v.len() == 1 => Ok(&v[0]),
            _ => Err(format!("expected a wrapper: {}", self.show())),
        }
    }
    pub fn list(&self) -> Result<&Vec<Tree>, String> {
        match self {
            Tree::L(v) => Ok(v),
            _ => Err(format!("expected a list: {}", self.show())),
        }
    }
    pub fn tok(&self) -> Result<usize, String> {
        match self {
            Tree::Tok(i) => Ok(*i),
            _ => Err(format!("expected a token: {}", self.show())),
        }
    }
    pub fn option(&self) -> Result<Option<&Tree>, String> {
        match self {
            Tree::U(n) if n == "None" => Ok(None),
            Tree::T(n, v) if n == "Some" && v.len() == 1 => Ok(Some(&v[0])),
            _ => Err(format!("expected an option: {}", self.show())),
        }
    }
    /// The nodes of a block
    pub fn nodes(&self) -> Result<&Vec<Tree>, String> {
        if self.name() != "ASTBlock" {
            return Err(format!("expected a block: {}", self.show()));
        }
        self.inner()?.list()
    }
    pub fn is_error(&self) -> bool {
        self.name() == "ASTError"
    }

    /// All tokens anywhere below
    pub fn tokens(&self, out: &mut Vec<usize>) {
        match self {
            Tree::S(_, f) => f.values().for_each(|v| v.tokens(out)),
            Tree::T(_, v) | Tree::L(v) => v.iter().for_each(|v| v.tokens(out)),
            Tree::Tok(i) => out.push(*i),
            Tree::U(_) | Tree::Alien(_) => {}
        }
    }

    pub fn alien(&self) -> Option<&str> {
        match self {
            Tree::S(_, f) => f.values().find_map(|v| v.alien()),
            Tree::T(_, v) | Tree::L(v) => v.iter().find_map(|v| v.alien()),
            Tree::Alien(s) => Some(s),
            _ => None,
        }
    }

    /// All error nodes below, wherever they are
    pub fn errors<'a>(&'a self, out: &mut Vec<&'a Tree>) {
        if self.is_error() {
            out.push(self);
            return;
        }
        match self {
            Tree::S(_, f) => f.values().for_each(|v| v.errors(out)),
            Tree::T(_, v) | Tree::L(v) => v.iter().for_each(|v| v.errors(out)),
            _ => {}
        }
    }

    pub fn map_tokens(&self, f: &dyn Fn(usize) -> usize) -> Tree {
        match self {
            Tree::S(n, m) => {
                Tree::S(n.clone(), m.iter().map(|(k, v)| (k.clone(), v.map_tokens(f))).collect())
            }
            Tree::T(n, v) => Tree::T(n.clone(), v.iter().map(|v| v.map_tokens(f)).collect()),
            Tree::L(v) => Tree::L(v.iter().map(|v| v.map_tokens(f)).collect()),
            Tree::Tok(i) => Tree::Tok(f(*i)),
            other => other.clone(),
        }
    }

    pub fn show(&self) -> String {
        let mut out = String::new();
        self.write(&mut out);
        if out.len() > 3000 {
            let mut end = 3000;
            while !out.is_char_boundary(end) {
                end -= 1;
            }
            out.truncate(end);
            out.push_str("...");
        }
        out
    }

    fn write(&self, out: &mut String) {
        match self {
            Tree::S(n, f) => {
                out.push_str(n);
                out.push('{');
                for (i, (k, v)) in f.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    out.push_str(k);
                    out.push('=');
                    v.write(out);
                }
                out.push('}');
            }
            Tree::T(n, v) => {
                out.push_str(n);
                out.push('(');
                for (i, v) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    v.write(out);
                }
                out.push(')');
            }
            Tree::L(v) => {
                out.push('[');
                for (i, v) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(' ');
                    }
                    v.write(out);
                }
                out.push(']');
            }
            Tree::U(n) => out.push_str(n),
            Tree::Tok(i) => out.push_str(&format!("#{i}")),
            Tree::Alien(s) => out.push_str(&format!("ALIEN<{s}>")),
        }
    }
}

/// A path to, and the two sides of, the first difference
pub fn diff(expected: &Tree, actual: &Tree) -> Option<String> {
    if expected == actual {
        return None;
    }
    fn go(e: &Tree, a: &Tree, path: &mut String) -> String {
        match (e, a) {
            (Tree::S(n, f), Tree::S(m, g)) if n == m && f.keys().eq(g.keys()) => {
                for (k, v) in f {
                    if v != &g[k] {
                        path.push_str(&format!("/{n}.{k}"));
                        return go(v, &g[k], path);
                    }
                }
            }
            (Tree::T(n, v), Tree::T(m, w)) if n == m && v.len() == w.len() => {
                for (x, y) in v.iter().zip(w) {
                    if x != y {
                        path.push_str(&format!("/{n}"));
                        return go(x, y, path);
                    }
                }
            }
            (Tree::L(v), Tree::L(w)) if v.len() == w.len() => {
                for (i, (x, y)) in v.iter().zip(w).enumerate() {
                    if x != y {
                        path.push_str(&format!("[{i}]"));
                        return go(x, y, path);
                    }
                }
            }
            _ => {}
        }
        format!("at {path}: expected {} got {}", e.show(), a.show())
    }
    Some(go(expected, actual, &mut String::new()))
}

/// Maps the printed form of each input token to its index
pub struct Index {
    map: HashMap<String, usize>,
    pub duplicates: bool,
}

impl Index {
    /// `number(i)` gives the index to use for the i-th token
    pub fn new(tokens: &[Token], number: impl Fn(usize) -> usize) -> Index {
        let mut map = HashMap::with_capacity(tokens.len());
        let mut duplicates = false;
        for (i, token) in tokens.iter().enumerate() {
            let text = format!("{token:?}");
            duplicates |= map.insert(text, number(i)).is_some();
        }
        Index { map, duplicates }
    }

    pub fn find(&self, token: &Token) -> Option<usize> {
        self.map.get(&format!("{token:?}")).copied()
    }
}

pub const TRIVIA: usize = 1 << 40;

/// Numbers the significant tokens 0, 1, ...; trivia get numbers from TRIVIA on
pub fn significant(tokens: &[Token]) -> Vec<usize> {
    let mut n = 0;
    tokens
        .iter()
        .enumerate()
        .map(|(i, t)| {
            if crate::words::is_trivia(&t.token_type) {
                TRIVIA + i
            } else {
                n += 1;
                n - 1
            }
        })
        .collect()
}

/// Parses `Debug` output
pub fn read(text: &str, index: &Index) -> Result<Tree, String> {
    let mut p = Reader { text, at: 0, index };
    let tree = p.value()?;
    if p.at != text.len() {
        return Err(format!("rest after the tree: {:?}", &text[p.at..]));
    }
    Ok(tree)
}

struct Reader<'a> {
    text: &'a str,
    at: usize,
    index: &'a Index,
}

impl<'a> Reader<'a> {
    fn peek(&self) -> u8 {
        self.text.as_bytes().get(self.at).copied().unwrap_or(0)
    }
    fn expect(&mut self, what: &str) -> Result<(), String> {
        if self.text[self.at..].starts_with(what) {
            self.at += what.len();
            Ok(())
        } else {
            let rest: String = self.text[self.at..].chars().take(60).collect();
            Err(format!("cannot read the printed tree: expected {what:?} at {rest:?}"))
        }
    }
    fn word(&mut self) -> &'a str {
        let start = self.at;
        while self.peek() == b'_' || self.peek().is_ascii_alphanumeric() {
            self.at += 1;
        }
        &self.text[start..self.at]
    }
    fn items(&mut self, close: &str) -> Result<Vec<Tree>, String> {
        let mut out = vec![];
        loop {
            if self.text[self.at..].starts_with(close) {
                self.at += close.len();
                return Ok(out);
            }
            if !out.is_empty() {
                self.expect(", ")?;
            }
            out.push(self.value()?);
        }
    }
    fn value(&mut self) -> Result<Tree, String> {
        match self.peek() {
            b'[' => {
                self.at += 1;
                Ok(Tree::L(self.items("]")?))
            }
            // A token: its range and its type, each ending in a newline
            b'(' => {
                let rest = &self.text[self.at..];
                let first = rest.find('\n').ok_or("no newline in a token")?;
                let second = rest[first + 1..].find('\n').ok_or("no second newline")?;
                let text = &rest[..first + 1 + second + 1];
                self.at += text.len();
                Ok(match self.index.map.get(text) {
                    Some(i) => Tree::Tok(*i),
                    None => Tree::Alien(text.to_string()),
                })
            }
            _ => {
                let name = self.word();
                if name.is_empty() {
                    self.expect("a value")?;
                }
                let name: Name = name.to_string().into();
                match self.peek() {
                    b'(' => {
                        self.at += 1;
                        Ok(Tree::T(name, self.items(")")?))
                    }
                    b' ' if self.text[self.at..].starts_with(" { ") => {
                        self.at += 3;
                        let mut fields = BTreeMap::new();
                        loop {
                            let key: Name = self.word().to_string().into();
                            self.expect(": ")?;
                            let value = self.value()?;
                            fields.insert(key, value);
                            if self.text[self.at..].starts_with(" }") {
                                self.at += 2;
                                return Ok(Tree::S(name, fields));
                            }
                            self.expect(", ")?;
                        }
                    }
                    _ => Ok(Tree::U(name)),
                }
            }
        }
    }
}
