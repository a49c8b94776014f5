//! Calls into the crate under test: panics become errors, fuel and memory are bounded.

use crate::instr::budgeted;
use crate::tree::{self, Index, Tree};
use lolcode_ast::lexer::{Token, TokenError};
use lolcode_ast::parser::ASTBlock;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static DRY: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string();
        if std::env::var_os("HARNESS_TRACE").is_some() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = text);
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

pub fn guard<T>(what: &str, size: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    if DRY.with(|d| d.get()) {
        return Err("dry run".into());
    }
    catch_unwind(AssertUnwindSafe(|| budgeted(size, f)))
        .map_err(|_| format!("{what} panicked: {}", last_panic().replace('\n', " ")))
}

pub fn tokenize(src: &str) -> Result<Result<Vec<Token>, TokenError>, String> {
    let owned = src.to_string();
    guard("tokenize", src.len(), || lolcode_ast::tokenize(owned))
}

/// Tokenizes a text that must tokenize
pub fn tokens(src: &str) -> Result<Vec<Token>, String> {
    tokenize(src)?.map_err(|e| format!("tokenize failed: {e:?}").replace('\n', " "))
}

pub fn parse(tokens: &[Token]) -> Result<ASTBlock, String> {
    let owned = tokens.to_vec();
    guard("parse", tokens.len(), || lolcode_ast::parse(owned))
}

pub fn print(block: &ASTBlock, size: usize) -> Result<String, String> {
    guard("printing the tree", size, || format!("{block:?}"))
}

/// Parses and reads the tree, with significant tokens numbered 0, 1, ...
pub fn parse_tree(tokens: &[Token]) -> Result<(ASTBlock, Tree), String> {
    let block = parse(tokens)?;
    let numbers = tree::significant(tokens);
    let index = Index::new(tokens, |i| numbers[i]);
    let text = print(&block, tokens.len())?;
    let tree = tree::read(&text, &index)?;
    if let Some(alien) = tree.alien() {
        return Err(format!("the tree holds a token that is not in the input: {alien:?}"));
    }
    Ok((block, tree))
}

/// Runs the given code with every call into the crate under test left out
pub fn dry<T>(f: impl FnOnce() -> T) -> T {
    DRY.with(|d| d.set(true));
    let r = f();
    DRY.with(|d| d.set(false));
    r
}

/// An iterator of `n` items gives the same ones however it is asked
pub fn iterator_laws<I: Iterator>(
    what: &str,
    n: usize,
    k: usize,
    make: impl Fn() -> I,
    key: impl Fn(&I::Item) -> String,
) -> Result<(), String> {
    guard(what, n, || {
        let key = |x: Option<I::Item>| x.map(|x| key(&x));
        let plain = |k: usize| {
            let mut i = make();
            let mut item = None;
            for _ in 0..k + 1 {
                item = i.next();
            }
            key(item)
        };
        let (low, high) = make().size_hint();
        if low > n || high.map_or(false, |h| h < n) {
            return Err(format!("{what}: of {n} items the size hint says {low} to {high:?}"));
        }
        let count = make().count();
        if count != n {
            return Err(format!("{what}: of {n} items the count is {count}"));
        }
        let mut some = make();
        let (at, next) = (key(some.nth(k)), key(some.next()));
        if at != plain(k) || (k + 1 < n && next != plain(k + 1)) {
            return Err(format!("{what}: of {n} items number {} is {at:?} when taken by its number", k + 1));
        }
        if n > 0 && key(make().last()) != plain(n - 1) {
            return Err(format!("{what}: of {n} items the last is another one when asked for"));
        }
        Ok(())
    })?
}
