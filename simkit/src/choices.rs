/// SplitMix64: the only pseudo-random generator in the simulator.
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            self.next()
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

enum Source {
    Random(Rng),
    Replay(Vec<u64>, usize),
}

/// Every decision of a run is drawn here. In random mode the values come from the seeded generator and are recorded;
/// in replay mode they come from a recorded list (0, the simplest choice, once the list is used up).
pub struct Choices {
    src: Source,
    log: Vec<u64>,
    tee: Option<std::fs::File>,
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Choices {
            src: Source::Random(Rng::new(seed)),
            log: Vec::new(),
            tee: None,
        }
    }
    pub fn replay(list: Vec<u64>) -> Self {
        Choices {
            src: Source::Replay(list, 0),
            log: Vec::new(),
            tee: None,
        }
    }
    /// Also write every choice to a file as it is made, for runs that kill their process.
    pub fn set_tee(&mut self, f: std::fs::File) {
        self.tee = Some(f);
    }
    pub fn into_log(self) -> Vec<u64> {
        self.log
    }
    pub fn log(&self) -> &[u64] {
        &self.log
    }
    /// A value in 0..bound (any u64 for bound 0). 0 is the simplest choice.
    pub fn draw(&mut self, bound: u64) -> u64 {
        let v = match &mut self.src {
            Source::Random(r) => r.below(bound),
            Source::Replay(l, i) => {
                let v = l.get(*i).copied().unwrap_or(0);
                *i += 1;
                if bound == 0 {
                    v
                } else {
                    v % bound
                }
            }
        };
        self.log.push(v);
        if let Some(f) = &mut self.tee {
            use std::io::Write;
            f.write_all(&v.to_le_bytes()).ok();
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// true with probability num/den; choice 0 is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index drawn with the given weights; the first entries are the simplest.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// A generator for bulk decisions, itself decided by one choice.
    pub fn sub(&mut self) -> Rng {
        let s = self.draw(1 << 32);
        Rng::new(s ^ 0x5bd1_e995_0000_0000)
    }
}
