//! The random tape every generator reads. A case is a pure function of its tape; an exhausted tape
//! reads as zeros, and zero is always the simplest choice, so shrinking the tape shrinks the case.

pub struct Tape<'a> {
    bytes: &'a [u8],
    at: usize,
}

impl<'a> Tape<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Tape { bytes, at: 0 }
    }

    pub fn left(&self) -> usize {
        self.bytes.len().saturating_sub(self.at)
    }

    pub fn byte(&mut self) -> u8 {
        let b = self.bytes.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        b
    }

    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes([self.byte(), self.byte(), self.byte(), self.byte()])
    }

    /// 0..n, zero being the simplest
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n <= 1 {
            0
        } else if n <= 256 {
            (self.byte() as usize * n) >> 8
        } else {
            let v = (self.byte() as usize) << 8 | self.byte() as usize;
            if n <= 65536 {
                (v * n) >> 16
            } else {
                let v = v << 16 | (self.byte() as usize) << 8 | self.byte() as usize;
                (v as u64 as u128 * n as u128 >> 32) as usize
            }
        }
    }

    /// True for p out of 256 bytes, never for the zero byte
    pub fn chance(&mut self, p: u16) -> bool {
        self.byte() as u16 >= 256 - p.min(255)
    }

    pub fn pick<'t, T>(&mut self, of: &'t [T]) -> &'t T {
        &of[self.below(of.len())]
    }

    /// A weighted choice; the first entry is the simplest
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut n = if total <= 256 {
            (self.byte() as u32 * total) >> 8
        } else {
            let v = (self.byte() as u32) << 8 | self.byte() as u32;
            (v as u64 * total as u64 >> 16) as u32
        };
        for (i, w) in weights.iter().enumerate() {
            if n < *w {
                return i;
            }
            n -= w;
        }
        weights.len() - 1
    }

    /// A size that is usually small, with a geometric tail and, rarely, anything up to `max`
    pub fn size(&mut self, go_on: u16, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.chance(go_on) {
            n += 1;
        }
        if n > 2 && self.chance(6) {
            n += self.below(max - n + 1);
        }
        n
    }
}

impl<'a> Tape<'a> {
    /// Cuts the rest of the tape in two, the first getting `percent` of it
    pub fn split(&mut self, percent: usize) -> (Tape<'a>, Tape<'a>) {
        let rest: &'a [u8] = &self.bytes[self.at.min(self.bytes.len())..];
        self.at = self.bytes.len();
        let k = rest.len() * percent / 100;
        (Tape::new(&rest[..k]), Tape::new(&rest[k..]))
    }
}
