//! The recorded choices of a run. A run is a pure function of its tape and the code: generation,
//! hash keys, scheduling decisions and faults are all drawn from here.
use crate::shared;
use std::sync::atomic::Ordering::Relaxed;

pub struct Tape {
    preset: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Tape {
        Tape { preset: Vec::new(), pos: 0, rng: Some(crate::splitmix(seed)) }
    }

    /// Replays recorded choices; choices beyond the end are 0, the simplest.
    pub fn replay(preset: Vec<u64>) -> Tape {
        Tape { preset, pos: 0, rng: None }
    }

    /// A choice in 0..n; 0 is the simplest.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = if self.pos < self.preset.len() {
            self.preset[self.pos] % n
        } else if let Some(s) = self.rng.as_mut() {
            *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = *s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^= z >> 31;
            ((z as u128 * n as u128) >> 64) as u64
        } else {
            0
        };
        let s = shared::get();
        if self.pos < shared::TAPE_MAX {
            s.tape[self.pos] = v;
            s.tape_len.store(self.pos + 1, Relaxed);
        }
        self.pos += 1;
        v
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }

    /// In lo..=hi, lo simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }

    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let x = self.draw(den);
        x + num >= den && num > 0
    }

    /// An arbitrary word; 0 simplest.
    pub fn word(&mut self) -> u64 {
        // two draws keep each value small enough to read in a replay file
        let a = self.draw(1 << 32);
        if a == 0 {
            return 0;
        }
        crate::splitmix(a)
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }

    /// A multiple of `unit` in [-k*unit, k*unit]; 0 simplest.
    pub fn lattice(&mut self, k: u64, unit: f64) -> f64 {
        let x = self.draw(2 * k + 1);
        let m = (x + 1) / 2;
        let v = m as f64 * unit;
        if x % 2 == 1 {
            v
        } else {
            -v
        }
    }

    /// A permutation of 0..n; the identity is the simplest.
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.usize(n - i);
            p.swap(i, j);
        }
        p
    }
}
