//! How far the generators reach: maxima of some sizes over fresh random cases, as a histogram.
//! A tool for extending the generators; no check uses it.

use crate::props;
use crate::runner::{fresh_tape, seeded_rng};

fn longest(items: impl Iterator<Item = bool>) -> usize {
    let (mut best, mut run) = (0, 0);
    for x in items {
        run = if x { run + 1 } else { 0 };
        best = best.max(run);
    }
    best
}

pub fn print(id: &str, n: u64, seed: u64) {
    let p = props::find(id).expect("a property");
    let limits = [8usize, 16, 32, 64, 100, 128, 256, 512, 1000, 4096, 65536];
    let mut rows: std::collections::BTreeMap<&str, (Vec<u64>, usize)> = Default::default();
    let mut rng = seeded_rng(seed, id, 0, 9);
    for _ in 0..n {
        let tape = fresh_tape(&mut rng, 4096);
        let s = props::render(p, &tape);
        let lines = || s.lines();
        let words = |w: &str| lines().map(|l| l.matches(w).count()).max().unwrap_or(0);
        let opened = |open: &[&str], close: &[&str]| {
            let (mut depth, mut best) = (0usize, 0);
            for l in lines() {
                let l = l.trim_start();
                if open.iter().any(|o| l.starts_with(o)) {
                    depth += 1;
                } else if close.iter().any(|o| l.starts_with(o)) {
                    depth = depth.saturating_sub(1);
                }
                best = best.max(depth);
            }
            best
        };
        let all: Vec<(&str, usize)> = vec![
            ("bytes", s.len()),
            ("non-ASCII", s.chars().filter(|c| !c.is_ascii()).count()),
            ("lines", lines().count()),
            ("longest line", lines().map(|l| l.len()).max().unwrap_or(0)),
            ("blank lines in a row", longest(lines().map(|l| l.trim().is_empty()))),
            ("comment lines in a row", longest(lines().map(|l| l.trim().starts_with("BTW")))),
            ("ellipsis lines in a row", longest(lines().map(|l| l.trim().ends_with("...") || l.ends_with('\u{2026}')))),
            ("commas in a row", longest(s.chars().filter(|c| *c != ' ').map(|c| c == ','))),
            ("spaces in a row", longest(s.chars().map(|c| c == ' '))),
            ("word length", longest(s.chars().map(|c| c.is_ascii_alphanumeric() || c == '_'))),
            ("digits in a row", longest(s.chars().map(|c| c.is_ascii_digit()))),
            ("AN in a line", words("AN")),
            ("YR in a line", words("YR ")),
            ("'Z in a line", words("'Z")),
            ("NOT in a line", words("NOT ")),
            ("OF in a line", words(" OF ")),
            ("MKAY in a line", words("MKAY")),
            ("quotes in a line", words("\"")),
            ("words in a line", lines().map(|l| l.split(' ').count()).max().unwrap_or(0)),
            ("MEBBE", s.matches("MEBBE").count()),
            ("OMG", s.matches("OMG ").count()),
            ("block depth", opened(&["O RLY", "WTF", "IM IN YR", "HOW IZ I"], &["OIC", "IM OUTTA", "IF U SAY"])),
        ];
        for (name, v) in all {
            let row = rows.entry(name).or_insert_with(|| (vec![0; limits.len()], 0));
            row.1 = row.1.max(v);
            for (i, l) in limits.iter().enumerate() {
                row.0[i] += (v >= *l) as u64;
            }
        }
    }
    println!("{id}, {n} cases{}", " ".repeat(10));
    println!("{:>26} {}    max", "at least", limits.map(|l| format!("{l:>7}")).concat());
    for (name, (counts, max)) in rows {
        println!("{name:>26} {} {max:>7}", counts.iter().map(|c| format!("{c:>7}")).collect::<String>());
    }
}
