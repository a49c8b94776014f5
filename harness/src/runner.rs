//! The proptest side: a strategy whose values are tapes, with a shrinker for tapes.

use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{RngAlgorithm, TestRng, TestRunner};
use rand_core_shim::fill;

mod rand_core_shim {
    use proptest::prelude::Rng;
    pub fn fill(rng: &mut proptest::test_runner::TestRng, out: &mut [u8]) {
        rng.fill_bytes(out)
    }
}

#[derive(Debug, Clone)]
pub struct TapeStrategy {
    pub max: usize,
}

impl Strategy for TapeStrategy {
    type Tree = TapeTree;
    type Value = Vec<u8>;

    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let tape = fresh_tape(runner.rng(), self.max);
        Ok(TapeTree::new(tape))
    }
}

pub fn fresh_tape(rng: &mut TestRng, max: usize) -> Vec<u8> {
    let mut head = [0u8; 4];
    fill(rng, &mut head);
    let len = match head[0] % 16 {
        0..=2 => 8 + head[1] as usize / 8,
        3..=7 => 32 + head[1] as usize / 2,
        8..=12 => 128 + head[1] as usize * 2,
        13..=14 => 512 + head[1] as usize * 4,
        _ => 1024 + head[1] as usize * 12,
    }
    .min(max);
    let mut tape = vec![0; len];
    fill(rng, &mut tape);
    // Sparse tapes make simple choices mostly, and a few unusual ones
    if head[2] % 8 == 0 {
        for b in tape.iter_mut() {
            if *b & 3 != 0 {
                *b >>= 2
            }
        }
    }
    tape
}

pub fn seeded_rng(seed: u64, property: &str, shard: u64, phase: u64) -> TestRng {
    let mut key = [0u8; 32];
    key[..8].copy_from_slice(&seed.to_le_bytes());
    key[8..16].copy_from_slice(&shard.to_le_bytes());
    key[16..24].copy_from_slice(&phase.to_le_bytes());
    for (i, b) in property.bytes().take(8).enumerate() {
        key[24 + i] = b;
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &key)
}

pub fn fill_bytes(rng: &mut TestRng, out: &mut [u8]) {
    fill(rng, out)
}

/// Shrinks by removing chunks, zeroing chunks and lowering bytes, greedily, until nothing helps.
#[derive(Debug, Clone)]
pub struct TapeTree {
    best: Vec<u8>,
    current: Vec<u8>,
    pass: usize,
    chunk: usize,
    at: usize,
    progress: bool,
    started: bool,
}

impl TapeTree {
    pub fn new(tape: Vec<u8>) -> Self {
        TapeTree {
            chunk: 0,
            current: tape.clone(),
            best: tape,
            pass: 0,
            at: 0,
            progress: false,
            started: false,
        }
    }

    fn propose(&mut self) -> bool {
        loop {
            let n = self.best.len();
            if n == 0 {
                self.current = self.best.clone();
                return false;
            }
            match self.pass {
                // Remove chunks, from the end
                0 | 1 => {
                    if self.chunk == 0 {
                        self.chunk = n;
                        self.at = 0;
                    }
                    let start = self.at * self.chunk;
                    if start >= n {
                        self.chunk /= 2;
                        self.at = 0;
                        if self.chunk == 0 {
                            self.pass += 1;
                        }
                        continue;
                    }
                    let end_off = start;
                    let hi = n - end_off;
                    let lo = hi.saturating_sub(self.chunk);
                    self.at += 1;
                    let mut c = self.best.clone();
                    if self.pass == 0 {
                        c.drain(lo..hi);
                    } else {
                        if c[lo..hi].iter().all(|b| *b == 0) {
                            continue;
                        }
                        c[lo..hi].fill(0);
                    }
                    self.current = c;
                    return true;
                }
                // Lower single bytes
                2..=4 => {
                    if self.at >= n {
                        self.at = 0;
                        self.pass += 1;
                        continue;
                    }
                    let i = self.at;
                    self.at += 1;
                    let b = self.best[i];
                    let nb = match self.pass {
                        2 => b / 2,
                        3 => b.saturating_sub(16),
                        _ => b.saturating_sub(1),
                    };
                    if nb == b {
                        continue;
                    }
                    self.current = self.best.clone();
                    self.current[i] = nb;
                    return true;
                }
                _ => {
                    if !self.progress {
                        // proptest takes the current tape as the result
                        self.current = self.best.clone();
                        return false;
                    }
                    self.progress = false;
                    self.pass = 0;
                    self.chunk = 0;
                    self.at = 0;
                }
            }
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Vec<u8>;

    fn current(&self) -> Vec<u8> {
        self.current.clone()
    }

    /// The current tape fails: keep it
    fn simplify(&mut self) -> bool {
        if self.started {
            self.best = self.current.clone();
            self.progress = true;
            // A removed chunk makes the next one appear at the same place
            if self.pass == 0 && self.at > 0 {
                self.at -= 1;
            }
        }
        self.started = true;
        self.propose()
    }

    /// The current tape passes: go back to the best one and try something else
    fn complicate(&mut self) -> bool {
        self.propose()
    }
}
