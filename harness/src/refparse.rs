//! The reference parser: first cuts the significant words into statements, then descends. It
//! follows the grammar and the documented errors; it shares no code or structure with the crate,
//! which works on a lazily cut token stream.

use crate::gen::{binary, unary};
use crate::layout::Seg;
use crate::tree::*;
use crate::words::*;
use lolcode_ast::lexer::{Token, TokenType};

pub struct Parser<'a> {
    segs: &'a [Seg],
    first: Vec<usize>,
    /// Statement and word within it
    si: usize,
    wi: usize,
}

type Res = Result<Tree, Tree>;

fn err(kind: &'static str, of: Tree) -> Tree {
    t(kind, of)
}
fn err2(kind: &'static str, inner: &'static str, tok: usize) -> Tree {
    t(kind, t(inner, Tree::Tok(tok)))
}
fn error_node(e: Tree) -> Tree {
    t("ASTError", e)
}

pub const STOP_IF: &[&str] = &["MEBBE", "NO WAI", "YA RLY", "OIC"];
pub const STOP_SWITCH: &[&str] = &["OMG", "OMGWTF", "OIC"];
pub const STOP_LOOP: &[&str] = &["IM OUTTA YR"];
pub const STOP_FUNCTION: &[&str] = &["IF U SAY SO"];

pub fn parse(segs: &[Seg]) -> Tree {
    let mut first = vec![];
    let mut n = 0;
    for s in segs {
        first.push(n);
        n += s.len();
    }
    let mut p = Parser { segs, first, si: 0, wi: 0 };
    p.block(&[])
}

impl<'a> Parser<'a> {
    fn peek(&self) -> Option<&'a W> {
        self.segs.get(self.si).and_then(|s| s.get(self.wi))
    }
    fn id(&self) -> usize {
        self.first[self.si] + self.wi
    }
    fn next(&mut self) -> Option<(&'a W, usize)> {
        let w = self.peek()?;
        let id = self.id();
        self.wi += 1;
        Some((w, id))
    }
    fn eat(&mut self, phrase: &str) -> Option<usize> {
        match self.peek() {
            Some(w) if w.is_kw(phrase) => self.next().map(|n| n.1),
            _ => None,
        }
    }
    /// Takes the rest of the statement
    fn rest(&mut self) -> Vec<Tree> {
        let mut out = vec![];
        while let Some((_, i)) = self.next() {
            out.push(Tree::Tok(i));
        }
        out
    }
    fn next_statement(&mut self) {
        self.si += 1;
        self.wi = 0;
    }
    fn end_of_header(&mut self) -> Result<(), Tree> {
        let rest = self.rest();
        if rest.is_empty() {
            self.next_statement();
            Ok(())
        } else {
            Err(err("TooManyTokens", Tree::L(rest)))
        }
    }

    fn block(&mut self, stop: &[&str]) -> Tree {
        let mut nodes = vec![];
        while self.si < self.segs.len() {
            if stop.iter().any(|k| self.peek().map_or(false, |w| w.is_kw(k))) {
                break;
            }
            nodes.push(self.statement().unwrap_or_else(error_node));
            let rest = self.rest();
            if !rest.is_empty() {
                nodes.push(error_node(err("TooManyTokens", Tree::L(rest))));
            }
            self.next_statement();
        }
        block(nodes)
    }

    fn identifier(&mut self, first: (&W, usize)) -> Res {
        match first.0 {
            W::Id(_) => Ok(s("Identifier", vec![("name", Tree::Tok(first.1)), ("srs", none())])),
            w if w.is_kw("SRS") => match self.next() {
                None => Err(err("MissingToken", Tree::Tok(first.1))),
                Some((W::Id(_), i)) => Ok(s(
                    "Identifier",
                    vec![("name", Tree::Tok(i)), ("srs", some(Tree::Tok(first.1)))],
                )),
                Some((_, i)) => Err(err("UnexpectedToken", Tree::Tok(i))),
            },
            _ => Err(err("UnexpectedToken", Tree::Tok(first.1))),
        }
    }

    /// Also gives the name word it ends with
    fn access(&mut self, first: (&W, usize)) -> Result<(Tree, usize), Tree> {
        let identifier = self.identifier(first)?;
        let mut last = identifier.get("name").unwrap().tok().unwrap();
        let mut accesses = vec![];
        while matches!(self.peek(), Some(W::Slot)) {
            let slot = self.next().unwrap().1;
            let Some(n) = self.next() else { return Err(err("MissingToken", Tree::Tok(slot))) };
            let identifier = self.identifier(n)?;
            last = identifier.get("name").unwrap().tok().unwrap();
            accesses.push(s(
                "VariableAccessSlot",
                vec![("slot_access_token", Tree::Tok(slot)), ("identifier", identifier)],
            ));
        }
        let tree =
            s("VariableAccess", vec![("identifier", identifier), ("accesses", Tree::L(accesses))]);
        Ok((tree, last))
    }

    fn expression(&mut self, first: (&W, usize)) -> Res {
        let (w, i) = first;
        match w {
            W::Int(..) | W::Float(..) | W::Yarn(_) | W::Bool(_) | W::Noob | W::NoobKw => {
                return Ok(t("Value", t("LiteralValue", Tree::Tok(i))))
            }
            w if w.is_name_start() => {
                return Ok(t("Value", t("VariableAccess", self.access(first)?.0)))
            }
            W::Kw("NOT") => {
                let Some(n) = self.next() else {
                    return Err(err2("Expression", "MissingOperands", i));
                };
                return Ok(unary(Tree::Tok(i), self.expression(n)?));
            }
            W::Kw(k) => {
                if let Some((_, name)) = BINARY.iter().find(|(p, _)| p == k) {
                    let missing = || err2("Expression", "MissingOperands", i);
                    let n = self.next().ok_or_else(missing)?;
                    let left = self.expression(n)?;
                    let an = self.eat("AN").map(Tree::Tok);
                    let n = self.next().ok_or_else(missing)?;
                    let right = self.expression(n)?;
                    return Ok(binary(name, Tree::Tok(i), left, an, right));
                }
                if let Some((_, name)) = NARY.iter().find(|(p, _)| p == k) {
                    let mut operands = vec![];
                    let mut mkay = None;
                    while let Some(n) = self.next() {
                        if n.0.is_kw("MKAY") {
                            mkay = Some(Tree::Tok(n.1));
                            break;
                        }
                        let operand = self.expression(n)?;
                        let an = self.eat("AN").map(Tree::Tok);
                        operands.push(s(
                            "NaryOperationOperand",
                            vec![("operand", operand), ("an_token", opt(an))],
                        ));
                    }
                    return Ok(t(
                        "NaryOperation",
                        s(
                            "NaryOperation",
                            vec![
                                ("operator", t(name, Tree::Tok(i))),
                                ("expressions", Tree::L(operands)),
                                ("mkay_token", opt(mkay)),
                            ],
                        ),
                    ));
                }
            }
            _ => {}
        }
        Err(err("UnexpectedToken", Tree::Tok(i)))
    }

    fn statement(&mut self) -> Res {
        let first = self.next().expect("a statement has a word");
        let (w, i) = first;
        if w.is_name_start() {
            return self.name_statement(first);
        }
        let tok = Tree::Tok(i);
        match w {
            W::Kw("VISIBLE") => {
                let mut es = vec![];
                while self.peek().map_or(false, |w| !matches!(w, W::Bang)) {
                    let n = self.next().unwrap();
                    es.push(self.expression(n)?);
                }
                let bang = self.next().map(|n| Tree::Tok(n.1));
                Ok(t(
                    "Visible",
                    s(
                        "Visible",
                        vec![
                            ("visible_token", tok),
                            ("expressions", Tree::L(es)),
                            ("exclamation_mark", opt(bang)),
                        ],
                    ),
                ))
            }
            W::Kw("I HAS A") => {
                let n = self.next().ok_or_else(|| err2("IHasA", "MissingIdentifier", i))?;
                if !n.0.is_name_start() {
                    return Err(err2("IHasA", "InvalidIdentifier", n.1));
                }
                let identifier = self.identifier(n)?;
                let initial = match self.next() {
                    None => None,
                    Some((w, _)) if !w.is_kw("ITZ") => {
                        return Err(err("UnexpectedToken", Tree::Tok(self.id() - 1)))
                    }
                    Some((_, itz)) => {
                        let n =
                            self.next().ok_or_else(|| err2("IHasA", "ExpectedInitialValue", itz))?;
                        let ty = match n.0 {
                            W::NoobKw => Some("Noob"),
                            W::Kw(k) => TYPES.iter().find(|(p, _)| p == k).map(|(_, n)| *n),
                            _ => None,
                        };
                        Some(match ty {
                            Some(name) => t("Type", t(name, Tree::Tok(n.1))),
                            None => t("Expression", self.expression(n)?),
                        })
                    }
                };
                Ok(t(
                    "IHasA",
                    s(
                        "IHasA",
                        vec![
                            ("i_has_a_token", tok),
                            ("identifier", identifier),
                            ("initial_value", opt(initial)),
                        ],
                    ),
                ))
            }
            W::Kw("GIMMEH") => {
                let n = self.next().ok_or_else(|| err("MissingToken", tok.clone()))?;
                let a = self.access(n)?.0;
                Ok(t("Gimmeh", s("Gimmeh", vec![("gimmeh_token", tok), ("variable_access", a)])))
            }
            W::Kw("FOUND YR") => {
                let n = self.next().ok_or_else(|| err("MissingToken", tok.clone()))?;
                let e = self.expression(n)?;
                Ok(t("FoundYr", s("FoundYr", vec![("found_yr_token", tok), ("expression", e)])))
            }
            W::Kw("HAI") => {
                let rest = self.rest();
                Ok(t("Hai", s("Hai", vec![("hai_token", tok), ("version", Tree::L(rest))])))
            }
            W::Kw("KTHXBYE") => Ok(t("KThxBye", s("KThxBye", vec![("k_thx_bye_token", tok)]))),
            W::Kw("GTFO") => Ok(t("Gtfo", s("Gtfo", vec![("gtfo_token", tok)]))),
            W::Kw("I IZ") => {
                let n = self.next().ok_or_else(|| err2("IIz", "MissingName", i))?;
                let name = self.access(n)?.0;
                let mut args = vec![];
                while let Some(yr) = self.eat("YR") {
                    let n = self.next().ok_or_else(|| err2("IIz", "MissingArgument", yr))?;
                    args.push(self.expression(n)?);
                    if self.eat("AN").is_none() {
                        break;
                    }
                }
                match self.next() {
                    Some((w, _)) if w.is_kw("MKAY") => Ok(t(
                        "IIz",
                        s(
                            "IIz",
                            vec![("i_iz_token", tok), ("name", name), ("arguments", Tree::L(args))],
                        ),
                    )),
                    Some((_, i)) => Err(err2("IIz", "MissingMkay", i)),
                    None => Err(err2("IIz", "MissingMkay", i)),
                }
            }
            W::Kw("IM IN YR") => self.looping(i),
            W::Kw("HOW IZ I") => self.function(i),
            W::Kw("O RLY") => self.conditional(i),
            W::Kw("WTF") => self.switch(i),
            _ => self.expression(first).map(|e| t("Expression", e)),
        }
    }

    fn name_statement(&mut self, first: (&W, usize)) -> Res {
        let (a, last) = self.access(first)?;
        let Some((w, i)) = self.next() else {
            return Ok(t("Expression", t("Value", t("VariableAccess", a))));
        };
        match w {
            W::Kw("R") => {
                let n = self.next().ok_or_else(|| err2("VariableAssignment", "ExpectedValue", i))?;
                let e = self.expression(n)?;
                Ok(t(
                    "VariableAssignment",
                    s(
                        "VariableAssignment",
                        vec![("variable_access", a), ("expression", e), ("r_token", Tree::Tok(i))],
                    ),
                ))
            }
            W::Kw("HAS A") => {
                let n = self.next().ok_or_else(|| err2("VariableAssignment", "ExpectedValue", i))?;
                let slot = self.identifier(n)?;
                let itz = match self.next() {
                    None => return Err(err("MissingToken", slot.get("name").unwrap().clone())),
                    Some((w, i)) if w.is_kw("ITZ") => i,
                    Some((_, i)) => return Err(err("UnexpectedToken", Tree::Tok(i))),
                };
                let n = self.next().ok_or_else(|| err("MissingToken", Tree::Tok(itz)))?;
                let value = self.expression(n)?;
                Ok(t(
                    "BukkitSetSlot",
                    s("BukkitSetSlot", vec![("bukkit", a), ("slot_name", slot), ("value", value)]),
                ))
            }
            _ => Err(err2("VariableAssignment", "MissingR", last)),
        }
    }

    fn question_mark(&mut self, i: usize) -> Result<(), Tree> {
        match self.next() {
            Some((w, _)) if w.is_quest() => self.end_of_header(),
            _ => Err(err2("ORly", "MissingQuestionMark", i)),
        }
    }

    fn closing(&mut self, opener: usize, closer: &str) -> Result<(), Tree> {
        match self.next() {
            None => Err(err("MissingBlockClosingToken", Tree::Tok(opener))),
            Some((w, _)) if w.is_kw(closer) => Ok(()),
            Some((_, i)) => Err(err("UnexpectedToken", Tree::Tok(i))),
        }
    }

    fn conditional(&mut self, i: usize) -> Res {
        self.question_mark(i)?;
        let mut if_true = None;
        let mut if_false = None;
        let mut mebbes = vec![];
        if let Some(k) = self.eat("YA RLY") {
            self.end_of_header()?;
            let b = self.block(STOP_IF);
            if_true = Some(s("YaRly", vec![("ya_rly_token", Tree::Tok(k)), ("block", b)]));
        }
        while let Some(k) = self.eat("MEBBE") {
            let n = self.next().ok_or_else(|| err2("ORly", "MissingMebbeExpression", k))?;
            let c = self.expression(n)?;
            self.end_of_header()?;
            let b = self.block(STOP_IF);
            mebbes.push(s(
                "Mebbe",
                vec![("mebbe_token", Tree::Tok(k)), ("condition", c), ("block", b)],
            ));
        }
        if let Some(k) = self.eat("NO WAI") {
            self.end_of_header()?;
            let b = self.block(STOP_IF);
            if_false = Some(s("NoWai", vec![("no_wai_token", Tree::Tok(k)), ("block", b)]));
        }
        self.closing(i, "OIC")?;
        Ok(t(
            "ORly",
            s(
                "ORly",
                vec![
                    ("o_rly_token", Tree::Tok(i)),
                    ("if_true", opt(if_true)),
                    ("if_false", opt(if_false)),
                    ("mebbes", Tree::L(mebbes)),
                ],
            ),
        ))
    }

    fn switch(&mut self, i: usize) -> Res {
        self.question_mark(i)?;
        let mut omgs = vec![];
        while let Some(k) = self.eat("OMG") {
            let n = self.next().ok_or_else(|| err("MissingToken", Tree::Tok(k)))?;
            let e = self.expression(n)?;
            self.end_of_header()?;
            let b = self.block(STOP_SWITCH);
            omgs.push(s(
                "WtfOmg",
                vec![("omg_token", Tree::Tok(k)), ("expression", e), ("block", b)],
            ));
        }
        let mut other = None;
        if let Some(k) = self.eat("OMGWTF") {
            self.end_of_header()?;
            let b = self.block(STOP_SWITCH);
            other = Some(s("WtfOmgWtf", vec![("omg_wtf_token", Tree::Tok(k)), ("block", b)]));
        }
        self.closing(i, "OIC")?;
        Ok(t(
            "Wtf",
            s(
                "Wtf",
                vec![("wtf_token", Tree::Tok(i)), ("omg", Tree::L(omgs)), ("omg_wtf", opt(other))],
            ),
        ))
    }

    fn function(&mut self, i: usize) -> Res {
        let n = self.next().ok_or_else(|| err2("HowIsI", "MissingNameIdentifier", i))?;
        let name = self.identifier(n)?;
        let mut params = vec![];
        while let Some(yr) = self.eat("YR") {
            let n = self.next().ok_or_else(|| err("MissingToken", Tree::Tok(yr)))?;
            params.push(self.identifier(n)?);
            if self.eat("AN").is_none() {
                break;
            }
        }
        self.end_of_header()?;
        let b = self.block(STOP_FUNCTION);
        self.closing(i, "IF U SAY SO")?;
        Ok(t(
            "HowIzI",
            s(
                "HowIzI",
                vec![
                    ("how_iz_i_token", Tree::Tok(i)),
                    ("name", name),
                    ("arguments", Tree::L(params)),
                    ("body", b),
                ],
            ),
        ))
    }

    fn looping(&mut self, i: usize) -> Res {
        let label = match self.next() {
            Some((W::Id(_), l)) => l,
            Some((_, l)) => return Err(err2("ImInYr", "InvalidStartLabel", l)),
            None => return Err(err2("ImInYr", "MissingStartLabel", i)),
        };
        let mut operation = None;
        for word in ["UPPIN", "NERFIN"] {
            if operation.is_some() {
                break;
            }
            if let Some(k) = self.eat(word) {
                match self.next() {
                    None => return Err(err2("ImInYr", "MissingOperand", k)),
                    Some((w, _)) if w.is_kw("YR") => {}
                    Some((_, j)) => return Err(err2("ImInYr", "MissingYr", j)),
                }
                let n = self.next().ok_or_else(|| err2("ImInYr", "MissingOperand", k))?;
                let a = self.access(n)?.0;
                operation = Some(s(
                    "LoopIterationOperation",
                    vec![("operation", t(word, Tree::Tok(k))), ("operand", a)],
                ));
            }
        }
        let mut condition = None;
        for word in ["TIL", "WILE"] {
            if condition.is_some() {
                break;
            }
            if let Some(k) = self.eat(word) {
                let n =
                    self.next().ok_or_else(|| err2("ImInYr", "MissingConditionalExpression", k))?;
                condition = Some(t(word, self.expression(n)?));
            }
        }
        self.end_of_header()?;
        let b = self.block(STOP_LOOP);
        let Some((_, outta)) = self.next() else {
            return Err(err2("ImInYr", "MissingImOuttaYr", i));
        };
        let end = match self.next() {
            Some((W::Id(_), l)) => l,
            Some((_, l)) => return Err(err2("ImInYr", "InvalidEndLabel", l)),
            None => return Err(err2("ImInYr", "MissingEndLabel", outta)),
        };
        Ok(t(
            "ImInYr",
            s(
                "ImInYr",
                vec![
                    ("im_in_yr_token", Tree::Tok(i)),
                    ("label", Tree::Tok(label)),
                    ("on_iteration", opt(operation)),
                    ("condition", opt(condition)),
                    ("code_block", b),
                    ("end_label", Tree::Tok(end)),
                ],
            ),
        ))
    }
}

/// Cuts a token sequence into statements: a statement goes on as long as the next token starts on
/// the line where the last one ended, or an ellipsis on that line leads to it; a comma ends it;
/// comments do not exist. Gives the positions of the tokens.
pub fn cut(tokens: &[Token]) -> Vec<Vec<usize>> {
    let toks: Vec<usize> = (0..tokens.len())
        .filter(|i| {
            !matches!(
                tokens[*i].token_type,
                TokenType::CommentSingleLine(_) | TokenType::CommentMultiLine(_)
            )
        })
        .collect();
    let kind = |k: usize| &tokens[toks[k]].token_type;
    let mut out = vec![];
    let mut k = 0;
    loop {
        while k < toks.len() && matches!(kind(k), TokenType::Comma | TokenType::Ellipsis) {
            k += 1;
        }
        if k >= toks.len() {
            return out;
        }
        let mut line = tokens[toks[k]].range.0.line;
        let mut seg = vec![];
        while k < toks.len() {
            let tok = &tokens[toks[k]];
            match tok.token_type {
                TokenType::Comma => break,
                _ if tok.range.0.line != line => break,
                TokenType::Ellipsis => {
                    // Wherever the next token is, it continues the statement
                    if let Some(n) = toks.get(k + 1) {
                        line = tokens[*n].range.0.line;
                    }
                }
                _ => {
                    seg.push(toks[k]);
                    line = tok.range.1.line;
                }
            }
            k += 1;
        }
        out.push(seg);
    }
}

pub fn word_of(token: &TokenType) -> W {
    use lolcode_ast::lexer::{Keywords, NumberToken, TokenValue};
    match token {
        TokenType::Identifier(n) => W::Id(n.clone()),
        TokenType::Keyword(Keywords::NOOB) => W::NoobKw,
        TokenType::Keyword(k) => {
            let (phrase, _) = all_keywords().into_iter().find(|(_, x)| x == k).unwrap();
            W::Kw(phrase)
        }
        TokenType::Symbol(s) => W::Sym(s.clone()),
        TokenType::Value(TokenValue::Number(NumberToken::Int(v))) => W::Int(v.to_string(), *v),
        TokenType::Value(TokenValue::Number(NumberToken::Float(v))) => W::Float(v.to_string(), *v),
        TokenType::Value(TokenValue::String(s)) => W::Yarn(s.clone()),
        TokenType::Value(TokenValue::Boolean(b)) => W::Bool(*b),
        TokenType::Value(TokenValue::NOOB) => W::Noob,
        TokenType::BukkitSlotAccess => W::Slot,
        TokenType::ExclamationMark => W::Bang,
        TokenType::QuestionMark => W::Quest,
        t => panic!("not a significant token: {t:?}"),
    }
}

/// The statements of a token sequence, as words
pub fn segments(tokens: &[Token]) -> Vec<Seg> {
    cut(tokens)
        .into_iter()
        .map(|s| s.into_iter().map(|i| word_of(&tokens[i].token_type)).collect())
        .collect()
}
