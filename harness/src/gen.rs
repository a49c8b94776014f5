//! Generators of well-formed programs: each function writes the words of a construct and returns
//! the tree that construct denotes, with tokens named by word number.

use crate::dict;
use crate::layout::Seg;
use crate::tape::Tape;
use crate::tree::*;
use crate::words::*;

/// Statements written so far
pub struct Em {
    pub segs: Vec<Seg>,
    pub n: usize,
    /// Statement numbers before which another statement of a block can be inserted
    pub slots: Vec<usize>,
    fresh: bool,
    pub stats: Stats,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub blocks: usize,
    pub depth: usize,
    pub empty_bodies: usize,
    pub ops: usize,
    pub max_args: usize,
}

impl Em {
    pub fn new() -> Self {
        Em { segs: vec![], n: 0, slots: vec![], fresh: true, stats: Stats::default() }
    }
    pub fn put(&mut self, w: W) -> Tree {
        if self.fresh {
            self.segs.push(vec![]);
            self.fresh = false;
        }
        self.segs.last_mut().unwrap().push(w);
        self.n += 1;
        Tree::Tok(self.n - 1)
    }
    pub fn kw(&mut self, phrase: &'static str) -> Tree {
        self.put(W::Kw(phrase))
    }
    /// Ends the statement
    pub fn end(&mut self) {
        self.fresh = true;
    }
    /// Mostly the given word, and sometimes one of the same sort that was used before
    fn known(&self, t: &mut Tape, w: W) -> W {
        if self.segs.is_empty() || !t.chance(40) {
            return w;
        }
        let seg = &self.segs[self.segs.len() - 1 - t.below(self.segs.len().min(8))];
        let at = t.below(seg.len());
        let same = |v: &&W| match (&w, v) {
            (W::Id(_), W::Id(_)) => true,
            (W::Int(..) | W::Float(..) | W::Yarn(_) | W::Bool(_) | W::Noob, v) => {
                matches!(v, W::Int(..) | W::Float(..) | W::Yarn(_) | W::Bool(_) | W::Noob)
            }
            _ => false,
        };
        seg[at..].iter().find(same).or_else(|| seg[..at].iter().rev().find(same)).cloned().unwrap_or(w)
    }
    /// A name, new or known
    pub fn name(&mut self, t: &mut Tape) -> Tree {
        let n = W::Id(name(t));
        let n = self.known(t, n);
        self.put(n)
    }
    /// A literal, new or known
    pub fn literal(&mut self, t: &mut Tape) -> Tree {
        let l = literal(t);
        let l = self.known(t, l);
        self.put(l)
    }
    fn slot(&mut self) {
        debug_assert!(self.fresh);
        self.slots.push(self.segs.len());
    }
}

// ---- Names and literals -------------------------------------------------------------------

const NAME_START: &[u8] = b"xyzabcXYZABCRNIO_qQwW";
const NAME_REST: &[u8] = b"abcxyzABCRNIOE019_Z5";
pub const FRAGMENTS: &[&str] = &[
    "I", "HAS", "IZ", "IN", "IM", "YA", "NO", "WAI", "O", "RLY", "OF", "SUM", "DIFF", "PRODUKT",
    "QUOSHUNT", "MOD", "BIGGR", "SMALLR", "BOTH", "SAEM", "EITHER", "WON", "ALL", "ANY", "IS", "NOW",
    "OUTTA", "HOW", "IF", "U", "SAY", "SO", "FOUND", "WIN_", "FAIL0", "TL", "BT", "OBT", "Z", "OM",
    "OI", "WT", "GT", "N", "T", "S", "NUMB", "IT", "LDR",
];

pub fn name(t: &mut Tape) -> String {
    let n = match t.weighted(&[60, 20, 14, 10, 8, 8, 2, 3]) {
        7 => dict_name(t),
        0 => {
            let mut s = String::new();
            s.push(*t.pick(NAME_START) as char);
            for _ in 0..t.size(110, 20) {
                s.push(*t.pick(NAME_REST) as char);
            }
            s
        }
        1 => {
            // A keyword's first word, continued
            let k = t.pick(PHRASES).split(' ').next().unwrap();
            format!("{k}{}", t.pick(&["x", "_", "0", "ER", "S", "9a", "A", "R", "Z"]))
        }
        2 => {
            let k = t.pick(PHRASES).replace(' ', "");
            format!("{}{k}", t.pick(&["x", "_", "a1", "B", "OF", "A", "R"]))
        }
        3 => t.pick(FRAGMENTS).to_string(),
        4 => t.pick(PHRASES).replace(' ', "_"),
        5 => {
            let k = t.pick(PHRASES).replace(' ', "");
            if t.chance(128) {
                k.to_lowercase()
            } else {
                // Cut short
                k[..1 + t.below(k.len())].to_string()
            }
        }
        _ => {
            let mut s = String::from("n");
            for _ in 0..t.below(600) {
                s.push('a');
            }
            s.push(*t.pick(NAME_REST) as char);
            s
        }
    };
    fix_name(n)
}

fn dict_name(t: &mut Tape) -> String {
    if t.chance(128) {
        let fitting = |s: &&str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        return dict::text(t).filter(fitting).unwrap_or("IT").to_string();
    }
    let n = dict::count(t, 5000).unwrap_or(3);
    let rest = *t.pick(NAME_REST) as char;
    "n".repeat(n - 1) + &rest.to_string()
}

pub fn fix_name(n: String) -> String {
    if is_name(&n) {
        n
    } else {
        format!("x{n}")
    }
}

const YARN_BITS: &[&str] = &[
    "a", " ", "hello", ":\"", "::", ":)", ":>", ":o", ":(1F638)", ":[CAT]", ":{x}", "é", "ß", "日本", "😀",
    "e\u{301}", "BTW", "OBTW", "TLDR", "...", "\u{2026}", ",", "!", "?", "'Z", "\\", "\\n", "'", "O RLY?", "OIC",
    "VISIBLE", "123", "\t", ":\u{e9}", "::::", "::\u{1F600}", ":\":\"", "\u{2028}", "\u{0}", "\u{feff}", ": ",
];

/// The text between the quotes of a yarn
pub fn yarn_contents(t: &mut Tape, newlines: bool) -> String {
    let mut s = String::new();
    for _ in 0..t.size(150, 12) {
        if newlines && t.chance(10) {
            s.push_str(t.pick(&["\n", "\r\n", "\n\n", ":\n"]));
        } else if t.chance(4) {
            let text = dict::text(t).unwrap_or("");
            if !text.contains('"') && !text.ends_with(':') && (newlines || !text.contains('\n')) {
                s.push_str(text);
            }
        } else {
            s.push_str(t.pick(YARN_BITS));
        }
    }
    if t.chance(3) {
        s.push_str(&"long ".repeat(t.below(2000)));
    }
    if t.chance(3) {
        // Of a certain size
        let n = dict::count(t, 70_000).unwrap_or(0);
        s.push_str(&"a".repeat(n.saturating_sub(if t.chance(128) { s.len() } else { s.chars().count() })));
    }
    if newlines && t.chance(3) {
        let bit = *t.pick(&["\n", "x\n", "\r\n"]);
        let n = t.below(300);
        s.push_str(&bit.repeat(dict::count(t, 1000).filter(|_| n > 100).unwrap_or(n)));
    }
    s
}

pub fn int_literal(t: &mut Tape) -> W {
    let v: i32 = match t.weighted(&[10, 6, 4, 3, 3, 1]) {
        5 => dict::count(t, 70_000).unwrap_or(7) as i32 * if t.chance(60) { -1 } else { 1 },
        0 => t.below(12) as i32,
        1 => t.below(100_000) as i32,
        2 => t.u32() as i32,
        3 => *t.pick(&[i32::MAX, i32::MIN, i32::MAX - 1, i32::MIN + 1, 1 << 16, 255, 256, 65535, -1]),
        _ => -(t.below(70_000) as i32),
    };
    let mut text = v.unsigned_abs().to_string();
    if t.chance(24) {
        let zeros = if t.chance(16) { dict::count(t, 400).unwrap_or(t.below(400)) } else { t.below(12) };
        text = format!("{}{text}", "0".repeat(1 + zeros));
    }
    if v < 0 {
        text.insert(0, '-');
    } else if t.chance(30) {
        text.insert(0, '+');
    } else if v == 0 && t.chance(30) {
        text.insert(0, '-');
    }
    W::Int(text, v)
}

pub fn float_literal(t: &mut Tape) -> W {
    let digits = |t: &mut Tape, max| -> String {
        let n = if t.chance(3) { dict::count(t, 320).unwrap_or(t.below(320)) } else { t.size(170, max) };
        (0..n).map(|_| (b'0' + t.below(10) as u8) as char).collect()
    };
    let (a, b) = match t.weighted(&[10, 3, 3, 2]) {
        0 => (format!("{}{}", t.below(10), digits(t, 6)), format!("{}{}", t.below(10), digits(t, 8))),
        1 => (format!("{}{}", t.below(10), digits(t, 4)), String::new()),
        2 => (String::new(), format!("{}{}", t.below(10), digits(t, 6))),
        _ => (format!("{}{}", t.below(10), digits(t, 45)), format!("{}{}", t.below(10), digits(t, 60))),
    };
    let sign = *t.pick(&["", "", "", "-", "+"]);
    let text = format!("{sign}{a}.{b}");
    let v = text.parse().expect("a float");
    W::Float(text, v)
}

pub fn literal(t: &mut Tape) -> W {
    match t.weighted(&[10, 4, 8, 3, 3, 3]) {
        0 => int_literal(t),
        1 => float_literal(t),
        2 => W::Yarn(yarn_contents(t, true)),
        3 => W::Bool(true),
        4 => W::Bool(false),
        _ => W::Noob,
    }
}

// ---- Expressions --------------------------------------------------------------------------

pub fn identifier(em: &mut Em, t: &mut Tape) -> Tree {
    let srs = if t.chance(36) { Some(em.kw("SRS")) } else { None };
    let name = em.name(t);
    s("Identifier", vec![("name", name), ("srs", opt(srs))])
}

pub fn access(em: &mut Em, t: &mut Tape) -> Tree {
    let identifier_ = identifier(em, t);
    let mut accesses = vec![];
    if t.chance(60) {
        let n = if t.chance(3) { many(t, 8, 300) } else { 1 + t.size(100, 8) };
        for _ in 0..n {
            let slot = em.put(W::Slot);
            let identifier = identifier(em, t);
            accesses.push(s(
                "VariableAccessSlot",
                vec![("slot_access_token", slot), ("identifier", identifier)],
            ));
        }
    }
    s("VariableAccess", vec![("identifier", identifier_), ("accesses", Tree::L(accesses))])
}

/// Rarely needed counts: `least` and up, on occasion up to `most`
fn many(t: &mut Tape, least: usize, most: usize) -> usize {
    if t.chance(64) {
        if let Some(n) = dict::count(t, most) {
            return n.max(least);
        }
    }
    let more = match t.weighted(&[20, 10, 10]) {
        0 => 16,
        1 => 50,
        _ => most,
    };
    least + t.below(more)
}

/// One of many operands or arguments: mostly plain
fn member(em: &mut Em, tp: &mut Tape, open: bool) -> Tree {
    let depth = if tp.chance(40) { 1 + tp.below(2) } else { 0 };
    expr(em, tp, depth, open)
}

pub fn value_of(access: Tree) -> Tree {
    t("Value", t("VariableAccess", access))
}

/// `open`: nothing of the statement follows, so that a variadic operation can do without MKAY.
/// `top`: 0 for anything, 1 for anything but a plain name
pub fn expr(em: &mut Em, tp: &mut Tape, depth: usize, open: bool) -> Tree {
    let choice = if depth == 0 { tp.weighted(&[10, 10]) } else { tp.weighted(&[20, 20, 22, 8, 14]) };
    match choice {
        0 => {
            t("Value", t("LiteralValue", em.literal(tp)))
        }
        1 => value_of(access(em, tp)),
        c => operation(em, tp, depth - 1, open, c - 2),
    }
}

fn operation(em: &mut Em, tp: &mut Tape, depth: usize, open: bool, kind: usize) -> Tree {
    em.stats.ops += 1;
    match kind {
        0 => {
            let (phrase, name) = *tp.pick(BINARY);
            let operator = em.kw(phrase);
            let left = expr(em, tp, depth, false);
            let an = if tp.chance(60) { None } else { Some(em.kw("AN")) };
            let right = expr(em, tp, depth, open);
            binary(name, operator, left, an, right)
        }
        1 => {
            let operator = em.kw("NOT");
            let inner = expr(em, tp, depth, open);
            unary(operator, inner)
        }
        _ => {
            let (phrase, name) = *tp.pick(NARY);
            let operator = em.kw(phrase);
            let closed = !open || tp.chance(150);
            let count = match tp.weighted(&[120, 60, 60, 20, 3]) {
                0 => 2,
                1 => 1,
                2 => 3 + tp.size(120, 4),
                // Without operands it only ends at MKAY, or at the end of the statement
                3 => 0,
                _ => many(tp, 7, 400),
            };
            em.stats.max_args = em.stats.max_args.max(count);
            let mut operands = vec![];
            for i in 0..count {
                let last = i + 1 == count;
                let operand = if count > 6 { member(em, tp, last && !closed) } else { expr(em, tp, depth, last && !closed) };
                let an = if last || tp.chance(50) { None } else { Some(em.kw("AN")) };
                operands.push(s(
                    "NaryOperationOperand",
                    vec![("operand", operand), ("an_token", opt(an))],
                ));
            }
            let mkay = closed.then(|| em.kw("MKAY"));
            t(
                "NaryOperation",
                s(
                    "NaryOperation",
                    vec![
                        ("operator", t(name, operator)),
                        ("expressions", Tree::L(operands)),
                        ("mkay_token", opt(mkay)),
                    ],
                ),
            )
        }
    }
}

pub fn binary(name: &'static str, operator: Tree, left: Tree, an: Option<Tree>, right: Tree) -> Tree {
    t(
        "BinaryOperation",
        s(
            "BinaryOperation",
            vec![
                ("left", left),
                ("operator", t(name, operator)),
                ("right", right),
                ("an_token", opt(an)),
            ],
        ),
    )
}

pub fn unary(operator: Tree, inner: Tree) -> Tree {
    t(
        "UnaryOperation",
        s("UnaryOperation", vec![("operator", t("Not", operator)), ("expression", inner)]),
    )
}

pub fn depth(tp: &mut Tape) -> usize {
    match tp.weighted(&[30, 40, 30, 10, 3]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        _ => 4 + tp.below(4),
    }
}

/// An expression with everything after it in the statement already excluded
pub fn any_expr(em: &mut Em, tp: &mut Tape, open: bool) -> Tree {
    if tp.chance(4) {
        return chain(em, tp, open);
    }
    let d = depth(tp);
    expr(em, tp, d, open)
}

/// A long one-sided nest
pub fn chain(em: &mut Em, tp: &mut Tape, open: bool) -> Tree {
    let n = match tp.weighted(&[240, 8, 16]) {
        0 => 1 + tp.below(60),
        1 => 1 + tp.below(240),
        _ => dict::count(tp, 240).unwrap_or(5),
    };
    // Of mixed operations, or all of one kind
    let only = if tp.chance(100) { Some(tp.below(4)) } else { None };
    fn go(em: &mut Em, tp: &mut Tape, n: usize, open: bool, only: Option<usize>) -> Tree {
        if n == 0 {
            return expr(em, tp, 0, open);
        }
        em.stats.ops += 1;
        match only.unwrap_or_else(|| tp.below(4)) {
            0 => {
                let o = em.kw("NOT");
                let i = go(em, tp, n - 1, open, only);
                unary(o, i)
            }
            1 => {
                let (phrase, name) = *tp.pick(BINARY);
                let o = em.kw(phrase);
                let l = go(em, tp, n - 1, false, only);
                let an = if tp.chance(60) { None } else { Some(em.kw("AN")) };
                let r = expr(em, tp, 0, open);
                binary(name, o, l, an, r)
            }
            2 => {
                let (phrase, name) = *tp.pick(BINARY);
                let o = em.kw(phrase);
                let l = expr(em, tp, 0, false);
                let an = if tp.chance(60) { None } else { Some(em.kw("AN")) };
                let r = go(em, tp, n - 1, open, only);
                binary(name, o, l, an, r)
            }
            _ => {
                let (phrase, name) = *tp.pick(NARY);
                let o = em.kw(phrase);
                let inner = go(em, tp, n - 1, false, only);
                let mk = em.kw("MKAY");
                t(
                    "NaryOperation",
                    s(
                        "NaryOperation",
                        vec![
                            ("operator", t(name, o)),
                            (
                                "expressions",
                                Tree::L(vec![s(
                                    "NaryOperationOperand",
                                    vec![("operand", inner), ("an_token", none())],
                                )]),
                            ),
                            ("mkay_token", some(mk)),
                        ],
                    ),
                )
            }
        }
    }
    go(em, tp, n, open, only)
}

// ---- Statements ---------------------------------------------------------------------------

pub const SIMPLE_KINDS: &[&str] = &[
    "VISIBLE", "declaration", "assignment", "slot assignment", "GIMMEH", "FOUND YR", "GTFO", "call",
    "HAI", "KTHXBYE", "bare expression",
];

/// One simple statement (a single segment); returns its node
pub fn simple(em: &mut Em, tp: &mut Tape, kind: usize) -> Tree {
    let node = match kind {
        0 => {
            let v = em.kw("VISIBLE");
            let n = match tp.weighted(&[100, 40, 40, 16, 3]) {
                0 => 1,
                1 => 0,
                2 => 2,
                3 => 3 + tp.below(4),
                _ => many(tp, 7, 400),
            };
            em.stats.max_args = em.stats.max_args.max(n);
            let bang = tp.chance(80);
            let mut es = vec![];
            for i in 0..n {
                let open = i + 1 == n && !bang;
                let e = if n > 6 { member(em, tp, open) } else { any_expr(em, tp, open) };
                es.push(e);
            }
            let bang = bang.then(|| em.put(W::Bang));
            t(
                "Visible",
                s(
                    "Visible",
                    vec![
                        ("visible_token", v),
                        ("expressions", Tree::L(es)),
                        ("exclamation_mark", opt(bang)),
                    ],
                ),
            )
        }
        1 => {
            let k = em.kw("I HAS A");
            let id = identifier(em, tp);
            let init = match tp.weighted(&[10, 10, 8]) {
                0 => None,
                1 => {
                    em.kw("ITZ");
                    Some(t("Expression", any_expr(em, tp, true)))
                }
                _ => {
                    em.kw("ITZ");
                    let (phrase, name) = *tp.pick(TYPES);
                    Some(t("Type", t(name, em.kw(phrase))))
                }
            };
            t(
                "IHasA",
                s(
                    "IHasA",
                    vec![("i_has_a_token", k), ("identifier", id), ("initial_value", opt(init))],
                ),
            )
        }
        2 => {
            let a = access(em, tp);
            let r = em.kw("R");
            let e = any_expr(em, tp, true);
            t(
                "VariableAssignment",
                s(
                    "VariableAssignment",
                    vec![("variable_access", a), ("expression", e), ("r_token", r)],
                ),
            )
        }
        3 => {
            let a = access(em, tp);
            em.kw("HAS A");
            let slot = identifier(em, tp);
            em.kw("ITZ");
            let e = any_expr(em, tp, true);
            t(
                "BukkitSetSlot",
                s("BukkitSetSlot", vec![("bukkit", a), ("slot_name", slot), ("value", e)]),
            )
        }
        4 => {
            let k = em.kw("GIMMEH");
            let a = access(em, tp);
            t("Gimmeh", s("Gimmeh", vec![("gimmeh_token", k), ("variable_access", a)]))
        }
        5 => {
            let k = em.kw("FOUND YR");
            let e = any_expr(em, tp, true);
            t("FoundYr", s("FoundYr", vec![("found_yr_token", k), ("expression", e)]))
        }
        6 => t("Gtfo", s("Gtfo", vec![("gtfo_token", em.kw("GTFO"))])),
        7 => {
            let k = em.kw("I IZ");
            let name = access(em, tp);
            let mut args = vec![];
            let n = count(tp);
            em.stats.max_args = em.stats.max_args.max(n);
            for i in 0..n {
                em.kw("YR");
                args.push(if n > 6 { member(em, tp, false) } else { any_expr(em, tp, false) });
                if i + 1 < n {
                    em.kw("AN");
                }
            }
            em.kw("MKAY");
            t(
                "IIz",
                s("IIz", vec![("i_iz_token", k), ("name", name), ("arguments", Tree::L(args))]),
            )
        }
        8 => {
            let k = em.kw("HAI");
            let mut version = vec![];
            for _ in 0..count(tp) {
                let w = if tp.chance(40) { any_word(tp) } else { float_literal(tp) };
                version.push(em.put(w));
            }
            t("Hai", s("Hai", vec![("hai_token", k), ("version", Tree::L(version))]))
        }
        9 => t("KThxBye", s("KThxBye", vec![("k_thx_bye_token", em.kw("KTHXBYE"))])),
        _ => {
            // A statement that starts with a name is a name alone
            let e = match tp.below(3) {
                0 => {
                    t("Value", t("LiteralValue", em.literal(tp)))
                }
                1 => value_of(access(em, tp)),
                _ => {
                    let d = depth(tp);
                    let kind = tp.weighted(&[22, 8, 14]);
                    operation(em, tp, d, true, kind)
                }
            };
            t("Expression", e)
        }
    };
    em.end();
    node
}

fn count(tp: &mut Tape) -> usize {
    match tp.weighted(&[80, 80, 40, 20, 3]) {
        0 => 1,
        1 => 0,
        2 => 2,
        3 => 3 + tp.below(4),
        _ => many(tp, 7, 400),
    }
}

pub fn any_simple(em: &mut Em, tp: &mut Tape) -> Tree {
    let kind = tp.weighted(&[20, 14, 14, 10, 8, 8, 6, 12, 3, 3, 16]);
    simple(em, tp, kind)
}

pub const BLOCK_KINDS: &[&str] = &["O RLY", "WTF", "loop", "function"];

/// One block construct; bodies nest up to `depth` further blocks
pub fn block_stmt(em: &mut Em, tp: &mut Tape, depth: usize, kind: usize) -> Tree {
    em.stats.blocks += 1;
    match kind {
        0 => {
            let o = em.kw("O RLY");
            em.put(W::Quest);
            em.end();
            let if_true = if tp.chance(40) {
                None
            } else {
                let k = em.kw("YA RLY");
                em.end();
                let b = body(em, tp, depth);
                Some(s("YaRly", vec![("ya_rly_token", k), ("block", b)]))
            };
            let mut mebbes = vec![];
            for _ in 0..branches(tp) {
                let k = em.kw("MEBBE");
                let c = any_expr(em, tp, true);
                em.end();
                let b = body(em, tp, depth);
                mebbes.push(s("Mebbe", vec![("mebbe_token", k), ("condition", c), ("block", b)]));
            }
            let if_false = if tp.chance(128) {
                let k = em.kw("NO WAI");
                em.end();
                let b = body(em, tp, depth);
                Some(s("NoWai", vec![("no_wai_token", k), ("block", b)]))
            } else {
                None
            };
            em.kw("OIC");
            em.end();
            t(
                "ORly",
                s(
                    "ORly",
                    vec![
                        ("o_rly_token", o),
                        ("if_true", opt(if_true)),
                        ("if_false", opt(if_false)),
                        ("mebbes", Tree::L(mebbes)),
                    ],
                ),
            )
        }
        1 => {
            let w = em.kw("WTF");
            em.put(W::Quest);
            em.end();
            let mut omgs = vec![];
            for _ in 0..1 + branches(tp) - tp.chance(30) as usize {
                let k = em.kw("OMG");
                let e = any_expr(em, tp, true);
                em.end();
                let b = body(em, tp, depth);
                omgs.push(s("WtfOmg", vec![("omg_token", k), ("expression", e), ("block", b)]));
            }
            let other = if tp.chance(128) {
                let k = em.kw("OMGWTF");
                em.end();
                let b = body(em, tp, depth);
                Some(s("WtfOmgWtf", vec![("omg_wtf_token", k), ("block", b)]))
            } else {
                None
            };
            em.kw("OIC");
            em.end();
            t(
                "Wtf",
                s("Wtf", vec![("wtf_token", w), ("omg", Tree::L(omgs)), ("omg_wtf", opt(other))]),
            )
        }
        2 => {
            let k = em.kw("IM IN YR");
            let label = em.name(tp);
            let label_name = em.segs.last().unwrap().last().unwrap().clone();
            let op = match tp.weighted(&[10, 10, 10]) {
                0 => None,
                n => {
                    let word = ["UPPIN", "NERFIN"][n - 1];
                    let o = t(word, em.kw(word));
                    em.kw("YR");
                    let a = access(em, tp);
                    Some(s("LoopIterationOperation", vec![("operation", o), ("operand", a)]))
                }
            };
            let condition = match tp.weighted(&[10, 10, 10]) {
                0 => None,
                n => {
                    let word = ["TIL", "WILE"][n - 1];
                    em.kw(word);
                    Some(t(word, any_expr(em, tp, true)))
                }
            };
            em.end();
            let b = body(em, tp, depth);
            em.kw("IM OUTTA YR");
            let end_label = if tp.chance(40) { em.name(tp) } else { em.put(label_name) };
            em.end();
            t(
                "ImInYr",
                s(
                    "ImInYr",
                    vec![
                        ("im_in_yr_token", k),
                        ("label", label),
                        ("on_iteration", opt(op)),
                        ("condition", opt(condition)),
                        ("code_block", b),
                        ("end_label", end_label),
                    ],
                ),
            )
        }
        _ => {
            let k = em.kw("HOW IZ I");
            let name = identifier(em, tp);
            let n = count(tp);
            em.stats.max_args = em.stats.max_args.max(n);
            let mut params = vec![];
            for i in 0..n {
                em.kw("YR");
                params.push(identifier(em, tp));
                if i + 1 < n {
                    em.kw("AN");
                }
            }
            em.end();
            let b = body(em, tp, depth);
            em.kw("IF U SAY SO");
            em.end();
            t(
                "HowIzI",
                s(
                    "HowIzI",
                    vec![
                        ("how_iz_i_token", k),
                        ("name", name),
                        ("arguments", Tree::L(params)),
                        ("body", b),
                    ],
                ),
            )
        }
    }
}

fn branches(tp: &mut Tape) -> usize {
    match tp.weighted(&[50, 40, 20, 10, 1]) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3 + tp.below(3),
        _ => many(tp, 6, 300),
    }
}

pub fn body(em: &mut Em, tp: &mut Tape, depth: usize) -> Tree {
    let n = match tp.weighted(&[50, 20, 30, 8]) {
        0 => 1,
        1 => 0,
        2 => 2,
        _ if tp.chance(4) => many(tp, 8, 300),
        _ => 3 + tp.size(100, 5),
    };
    if n == 0 {
        em.stats.empty_bodies += 1;
    }
    block(statements(em, tp, n, depth))
}

/// `n` statements of one block
pub fn statements(em: &mut Em, tp: &mut Tape, n: usize, depth: usize) -> Vec<Tree> {
    let mut out = vec![];
    for _ in 0..n {
        em.slot();
        out.push(stmt(em, tp, depth));
    }
    em.slot();
    out
}

pub fn stmt(em: &mut Em, tp: &mut Tape, depth: usize) -> Tree {
    if depth > 0 && tp.left() > 0 && tp.chance(90) {
        let kind = tp.below(4);
        block_stmt(em, tp, depth - 1, kind)
    } else {
        any_simple(em, tp)
    }
}

/// A whole well-formed program, and its tree
pub fn program(tp: &mut Tape) -> (Em, Tree) {
    if tp.chance(2) {
        let height = if tp.chance(60) { dict::count(tp, 100).unwrap_or(5) } else { 1 + tp.below(80) };
        return tower(tp, height);
    }
    let mut em = Em::new();
    let depth = match tp.weighted(&[20, 40, 30, 20, 6]) {
        0 => 1,
        1 => 2,
        2 => 0,
        3 => 3,
        _ => 4 + tp.below(6),
    };
    let n = match tp.weighted(&[40, 60, 30, 3]) {
        0 => 1,
        1 => 2 + tp.below(4),
        2 => 5 + tp.below(8),
        _ => many(tp, 20, 600),
    };
    let mut nodes = vec![];
    let (header, end) = (tp.chance(24), tp.chance(24));
    if header {
        em.slot();
        nodes.push(simple(&mut em, tp, 8));
    }
    nodes.extend(statements(&mut em, tp, n, depth));
    if end {
        nodes.push(simple(&mut em, tp, 9));
        em.slot();
    }
    em.stats.depth = depth;
    (em, block(nodes))
}

/// A tower of nested blocks
pub fn tower(tp: &mut Tape, height: usize) -> (Em, Tree) {
    let mut em = Em::new();
    fn go(em: &mut Em, tp: &mut Tape, h: usize) -> Tree {
        if h == 0 {
            return any_simple(em, tp);
        }
        em.stats.blocks += 1;
        match tp.below(4) {
            0 => {
                let k = em.kw("HOW IZ I");
                let name = identifier(em, tp);
                em.end();
                let inner = level(em, tp, h);
                em.kw("IF U SAY SO");
                em.end();
                t(
                    "HowIzI",
                    s(
                        "HowIzI",
                        vec![
                            ("how_iz_i_token", k),
                            ("name", name),
                            ("arguments", Tree::L(vec![])),
                            ("body", block(inner)),
                        ],
                    ),
                )
            }
            1 => {
                let k = em.kw("IM IN YR");
                let label = em.put(W::Id("l".into()));
                em.end();
                let inner = level(em, tp, h);
                em.kw("IM OUTTA YR");
                let end = em.put(W::Id("l".into()));
                em.end();
                t(
                    "ImInYr",
                    s(
                        "ImInYr",
                        vec![
                            ("im_in_yr_token", k),
                            ("label", label),
                            ("on_iteration", none()),
                            ("condition", none()),
                            ("code_block", block(inner)),
                            ("end_label", end),
                        ],
                    ),
                )
            }
            2 => {
                let k = em.kw("O RLY");
                em.put(W::Quest);
                em.end();
                let y = em.kw("NO WAI");
                em.end();
                let inner = level(em, tp, h);
                em.kw("OIC");
                em.end();
                t(
                    "ORly",
                    s(
                        "ORly",
                        vec![
                            ("o_rly_token", k),
                            ("if_true", none()),
                            (
                                "if_false",
                                some(s("NoWai", vec![("no_wai_token", y), ("block", block(inner))])),
                            ),
                            ("mebbes", Tree::L(vec![])),
                        ],
                    ),
                )
            }
            _ => {
                let k = em.kw("WTF");
                em.put(W::Quest);
                em.end();
                let y = em.kw("OMGWTF");
                em.end();
                let inner = level(em, tp, h);
                em.kw("OIC");
                em.end();
                t(
                    "Wtf",
                    s(
                        "Wtf",
                        vec![
                            ("wtf_token", k),
                            ("omg", Tree::L(vec![])),
                            (
                                "omg_wtf",
                                some(s("WtfOmgWtf", vec![("omg_wtf_token", y), ("block", block(inner))])),
                            ),
                        ],
                    ),
                )
            }
        }
    }
    fn level(em: &mut Em, tp: &mut Tape, h: usize) -> Vec<Tree> {
        let mut inner = vec![];
        em.slot();
        if tp.chance(40) {
            inner.push(any_simple(em, tp));
            em.slot();
        }
        inner.push(go(em, tp, h - 1));
        em.slot();
        if tp.chance(40) {
            inner.push(any_simple(em, tp));
            em.slot();
        }
        inner
    }
    em.slot();
    let node = go(&mut em, tp, height);
    em.slot();
    em.stats.depth = height;
    (em, block(vec![node]))
}

// ---- Arbitrary words ----------------------------------------------------------------------

const SYMBOLS: &[&str] = &[
    "+", "-", "*", "/", "(", ")", "&", "%", "=", "@", "#", "$", ";", ".", "<", ">", "[", "]", "{", "}",
    "^", "~", "`", "|", "\\", ":", "'", "é", "ß", "日", "😀", "\u{a0}", "\u{301}", "\u{2028}", "\u{feff}",
    "\u{0}", "\u{7f}", "\u{b}", "\u{c}", "\u{85}", "…"
];

pub fn symbol(t: &mut Tape) -> W {
    if t.chance(4) {
        if let Some(c) = dict::char(t).filter(|c| !" \t\r\n,!?\"\u{2026}_".contains(*c)) {
            return W::Sym(c.to_string());
        }
    }
    // The last one is the ellipsis, not a symbol
    W::Sym(SYMBOLS[t.below(SYMBOLS.len() - 1)].to_string())
}

/// Words that a keyword token can be made of by the tokenizer
pub fn any_keyword(t: &mut Tape) -> W {
    loop {
        let p = *t.pick(PHRASES);
        if NOT_KEYWORD_TOKENS.contains(&p) {
            return W::Kw("AN");
        }
        return W::Kw(p);
    }
}

/// Any significant word
pub fn any_word(t: &mut Tape) -> W {
    match t.weighted(&[20, 20, 12, 4, 2, 3, 3]) {
        0 => W::Id(name(t)),
        1 => any_keyword(t),
        2 => literal(t),
        3 => W::Slot,
        4 => W::Bang,
        5 => W::Quest,
        _ => symbol(t),
    }
}
