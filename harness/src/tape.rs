//! The choice tape: every random decision of a case is one recorded number, so
//! a failing case is replayed and shrunk by editing the numbers.

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64, stream: u64, case: u64) -> Rng {
        let mut s = seed
            .wrapping_mul(0x9E37_79B9_7F4A_7C15)
            .wrapping_add(stream.wrapping_mul(0xD1B5_4A32_D192_ED03))
            .wrapping_add(case.wrapping_mul(0x8CB9_2BA7_2F3D_8DD7));
        let mut next = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        Rng([next(), next(), next(), next()])
    }

    pub fn next(&mut self) -> u64 {
        let r = self.0[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.0[1] << 17;
        self.0[2] ^= self.0[0];
        self.0[3] ^= self.0[1];
        self.0[1] ^= self.0[2];
        self.0[0] ^= self.0[3];
        self.0[2] ^= t;
        self.0[3] = self.0[3].rotate_left(45);
        r
    }
}

pub struct Tape {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    /// How many choices there are before all of them are zero
    pub limit: usize,
    pub rec: Vec<u64>,
    /// Where to write each choice as it's made, for cases that end the process
    pub echo: Option<std::fs::File>,
}

pub const MAX_CHOICES: usize = 8192;

impl Tape {
    pub fn random(seed: u64, stream: u64, case: u64) -> Tape {
        Tape {
            rng: Some(Rng::new(seed, stream, case)),
            replay: Vec::new(),
            pos: 0,
            limit: MAX_CHOICES,
            rec: Vec::new(),
            echo: None,
        }
    }

    pub fn replay(choices: Vec<u64>) -> Tape {
        Tape {
            rng: None,
            replay: choices,
            pos: 0,
            limit: MAX_CHOICES,
            rec: Vec::new(),
            echo: None,
        }
    }

    /// A choice below `n`; `n == 0` means any 64-bit number.
    ///
    /// Zero is always the simplest choice, and what an exhausted tape gives.
    pub fn raw(&mut self, n: u64) -> u64 {
        let v = if self.rec.len() >= self.limit {
            0
        } else {
            match self.rng {
                Some(ref mut r) => {
                    let v = r.next();
                    if n == 0 {
                        v
                    } else {
                        v % n
                    }
                }
                None => {
                    let v = self.replay.get(self.pos).copied().unwrap_or(0);
                    self.pos += 1;
                    if n != 0 && v >= n {
                        v % n
                    } else {
                        v
                    }
                }
            }
        };
        self.rec.push(v);
        if let Some(ref mut f) = self.echo {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        v
    }

    /// A size, in cases that have to stay small not above `most`
    pub fn at_most(&self, n: usize, most: usize) -> usize {
        if self.limit < MAX_CHOICES {
            n.min(most)
        } else {
            n
        }
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.raw(n as u64) as usize
    }

    /// How many of something there are: few as a rule, but many now and then
    pub fn count(&mut self, few: usize) -> usize {
        match self.weighted(&[250, 6, 1]) {
            0 => self.below(few),
            1 => *self.pick(&[8, 16, 32, 64]) + self.below(3) - 1,
            _ => self.below(140),
        }
    }

    pub fn any(&mut self) -> u64 {
        self.raw(0)
    }

    pub fn any128(&mut self) -> u128 {
        (self.any() as u128) << 64 | self.any() as u128
    }

    /// True `num` times in `den`; the zero choice is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn flip(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// An index chosen with the given weights; index 0 should be the simplest.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut r = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= w;
        }
        0
    }
}

/// Reduce a failing tape to a smaller one that still fails.
pub fn shrink(
    mut best: Vec<u64>,
    budget: usize,
    deadline: std::time::Instant,
    fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut left = budget;
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, left: &mut usize| -> bool {
        if *left == 0 || std::time::Instant::now() > deadline || cand == *best {
            return false;
        }
        *left -= 1;
        if let Some(rec) = fails(&cand) {
            // keep whichever of the two spellings is smaller
            let mut rec = if rec.len() <= cand.len() { rec } else { cand };
            while rec.last() == Some(&0) {
                rec.pop();
            }
            if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                *best = rec;
                return true;
            }
        }
        false
    };
    while best.last() == Some(&0) {
        let mut c = best.clone();
        while c.last() == Some(&0) {
            c.pop();
        }
        if !try_it(c, &mut best, &mut left) {
            break;
        }
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !try_it(c, &mut best, &mut left) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let mut c = best.clone();
                for x in c.iter_mut().skip(i).take(size) {
                    *x = 0;
                }
                try_it(c, &mut best, &mut left);
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            loop {
                if i >= best.len() || best[i] == 0 {
                    break;
                }
                let v = best[i];
                let mut hit = false;
                for n in [v / 2, v - v / 4 - 1, v - 1] {
                    if n < v {
                        let mut c = best.clone();
                        c[i] = n;
                        if try_it(c, &mut best, &mut left) {
                            hit = true;
                            break;
                        }
                    }
                }
                if !hit {
                    break;
                }
            }
            i += 1;
        }
        if best == before || left == 0 || std::time::Instant::now() > deadline {
            return best;
        }
    }
}
