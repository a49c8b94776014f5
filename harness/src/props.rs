//! The list of properties and what the engine needs to know about each.

use crate::tape::Tape;
use crate::{convprops, lexprops, parseprops, sut};

/// What one evaluation looked at
#[derive(Default)]
pub struct Case {
    /// The input, written out, set before the code under test runs on it
    pub input: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// Too large to be worth mutating
    pub large: bool,
}

impl Case {
    pub fn set_input(&mut self, src: &str) {
        self.large = src.len() > 8000;
        self.input = if src.len() > 20_000 {
            format!("{}... ({} bytes)", src.chars().take(2000).collect::<String>(), src.len())
        } else {
            src.to_string()
        };
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
}

pub struct Probe {
    pub key: &'static str,
    pub what: &'static str,
}

pub struct Property {
    pub id: &'static str,
    /// Random cases of a quick run
    pub cases: u64,
    /// How cases are made, and which count as non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub probes: &'static [Probe],
    pub check: fn(&mut Tape, &mut Case) -> Result<(), String>,
}

pub const ALL: &[&Property] = &[
    &lexprops::C01,
    &lexprops::C02,
    &lexprops::C03,
    &lexprops::C04,
    &lexprops::C05,
    &lexprops::C06,
    &lexprops::C07,
    &lexprops::C08,
    &lexprops::C09,
    &lexprops::C10,
    &parseprops::C11,
    &parseprops::C12,
    &parseprops::C13,
    &parseprops::C14,
    &parseprops::C15,
    &parseprops::C16,
    &parseprops::C17,
    &parseprops::C18,
    &parseprops::C19,
    &parseprops::C20,
    &parseprops::C21,
    &parseprops::C22,
    &parseprops::C23,
    &parseprops::C24,
    &lexprops::C25,
    &convprops::C26,
    &convprops::C27,
];

pub fn find(id: &str) -> Option<&'static Property> {
    ALL.iter().copied().find(|p| p.id == id)
}

/// The input a tape stands for, without running the code under test on it
pub fn render(p: &Property, tape: &[u8]) -> String {
    sut::dry(|| {
        let mut case = Case::default();
        let _ = (p.check)(&mut Tape::new(tape), &mut case);
        case.input
    })
}

/// Runs a known finding's input; a crash of this process shows that it still fails
pub fn probe(key: &str) -> i32 {
    match key {
        "deep-nesting" => {
            // On the main thread, whose stack is the system's default of 8 MB
            let mut src = "NOT ".repeat(200_000);
            src.push('x');
            let tokens = lolcode_ast::tokenize(src).expect("tokens");
            let block = lolcode_ast::parse(tokens);
            std::mem::forget(block);
            println!("holds");
            0
        }
        _ => {
            eprintln!("no probe {key}");
            2
        }
    }
}
