//! Random generation over a recorded tape of choices.
//!
//! Every choice a generator makes is drawn through `G` and recorded, already reduced to its
//! range, on a tape. A case is therefore a pure function of its tape: a failing case is shrunk
//! by editing the tape (deleting, zeroing and lowering choices) and replayed from the tape.

/// xoshiro256** seeded with splitmix64.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
}

/// FNV-1a with a final mix: used for seeds and distinctness only.
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for c in bytes.chunks(8) {
        let mut v = 0_u64;
        for b in c {
            v = (v << 8) | *b as u64;
        }
        h = (h ^ v).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    h ^= bytes.len() as u64;
    splitmix(&mut h)
}

pub struct G {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub digest: Option<u64>,
    pub desc: String,
    /// Length and start of the first input
    pub first: (usize, Vec<u8>),
}

impl G {
    pub fn random(seed: u64) -> G {
        G {
            tape: vec![],
            pos: 0,
            rng: Some(Rng::new(seed)),
            labels: vec![],
            nontrivial: false,
            digest: None,
            desc: String::new(),
            first: (0, vec![]),
        }
    }
    pub fn replay(tape: Vec<u64>) -> G {
        G {
            tape,
            pos: 0,
            rng: None,
            labels: vec![],
            nontrivial: false,
            digest: None,
            desc: String::new(),
            first: (0, vec![]),
        }
    }
    /// How much of the tape was read.
    pub fn used(&self) -> usize {
        self.pos
    }

    fn draw(&mut self, n: u64, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            if n == 0 || v < n {
                v
            } else {
                n - 1
            }
        } else if let Some(rng) = self.rng.as_mut() {
            let v = f(rng);
            self.tape.push(v);
            v
        } else {
            self.tape.push(0);
            0
        };
        if self.pos < self.tape.len() {
            self.tape[self.pos] = v;
        }
        self.pos += 1;
        v
    }

    /// 0..n, uniform; shrinks to 0
    pub fn below(&mut self, n: u64) -> u64 {
        self.draw(n.max(1), |r| r.below(n))
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi; shrinks to lo
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn u32r(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as u64, hi as u64) as u32
    }
    pub fn ur(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(2, |r| (r.below(den) < num) as u64) == 1
    }
    pub fn seed(&mut self) -> u64 {
        self.draw(0, |r| r.next())
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn pickv<T: Copy>(&mut self, v: &[T]) -> T {
        *self.pick(v)
    }
    /// Dimensions past what a byte, a buffer of the standard library or a screen holds: now and
    /// then, as they take long.
    pub fn large(&mut self, den: u64) -> Option<(u32, u32)> {
        if !self.chance(1, den) {
            return None;
        }
        self.label("large");
        Some(match self.below(5) {
            0 => (self.u32r(250, 1300), self.u32r(1, 6)),
            1 => (self.u32r(4000, 9000), self.u32r(1, 3)),
            2 => (self.u32r(1, 8), self.u32r(250, 1300)),
            3 => (self.u32r(1, 3), self.u32r(4000, 9000)),
            _ => (self.u32r(250, 400), self.u32r(250, 400)),
        })
    }
    /// An integer below 2^bits, biased to edges.
    pub fn edge(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 {
            u64::MAX
        } else {
            (1_u64 << bits) - 1
        };
        self.draw(max.saturating_add(if bits >= 64 { 0 } else { 1 }), |r| {
            let v = match r.below(8) {
                0 => r.below(4),
                1 => r.below(256),
                2 => max - r.below(4),
                3 => {
                    let s = r.below(bits as u64);
                    (1_u64 << s).wrapping_add(r.below(3)).wrapping_sub(1)
                }
                4 => (max >> 1).wrapping_add(r.below(3)).wrapping_sub(1),
                _ => r.next(),
            };
            v & max
        })
    }
    pub fn u8(&mut self) -> u8 {
        self.edge(8) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.edge(16) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.edge(32) as u32
    }
    /// Many bytes from few choices; zeros when shrunk.
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        match self.below(4) {
            0 => vec![0; n],
            1 => {
                let b = self.below(256) as u8;
                vec![b; n]
            }
            2 => (0..n).map(|i| (i % 251) as u8).collect(),
            _ => {
                let mut r = Rng::new(self.seed());
                (0..n).map(|_| r.next() as u8).collect()
            }
        }
    }
    /// `n` random bytes for sure distinct from one place to the next.
    pub fn noise(&mut self, n: usize) -> Vec<u8> {
        let mut r = Rng::new(self.seed());
        (0..n).map(|_| r.next() as u8).collect()
    }
    /// A child generator whose choices are not shrunk one by one.
    pub fn sub(&mut self) -> Rng {
        Rng::new(self.seed())
    }
    /// A permutation of 0..n
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.idx(n - i);
            v.swap(i, j);
        }
        v
    }
    pub fn ascii(&mut self, lo: usize, hi: usize) -> String {
        let n = self.ur(lo, hi);
        (0..n)
            .map(|_| {
                let c = self.below(64) as u8;
                b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -"[c as usize]
                    as char
            })
            .collect()
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    /// Call with what the case feeds the code under test.
    pub fn input(&mut self, b: &[u8]) {
        let h = hash(b);
        self.digest = Some(self.digest.unwrap_or(0).rotate_left(7) ^ h);
        if self.first.0 == 0 {
            self.first = (b.len(), b[..b.len().min(256)].to_vec());
        }
        static SAVE: std::sync::OnceLock<Option<String>> = std::sync::OnceLock::new();
        if let Some(p) = SAVE.get_or_init(|| std::env::var("ORV_SAVE").ok()) {
            let _ = std::fs::write(p, b);
        }
        crate::run::note_tape(&self.tape);
    }
    /// What to say of the input in reports.
    pub fn describe(&mut self) -> String {
        if self.desc.is_empty() && self.first.0 > 0 {
            let hex: String = self.first.1.iter().map(|b| format!("{b:02x}")).collect();
            let more = if self.first.0 > self.first.1.len() { ".." } else { "" };
            return format!("{} bytes: {hex}{more}", self.first.0);
        }
        std::mem::take(&mut self.desc)
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

/// Values of an image: few choices, many shapes.
pub fn image(g: &mut G, n: usize, width: usize, bits: u32) -> Vec<u16> {
    let max = ((1_u32 << bits) - 1) as u64;
    let mut v: Vec<u16> = match g.below(7) {
        0 => {
            let c = g.below(max + 1) as u16;
            vec![c; n]
        }
        1 => {
            // smooth gradient
            let a = g.below(8) as usize;
            let b = g.below(8) as usize;
            let c = g.below(max + 1) as usize;
            (0..n)
                .map(|i| ((c + (i % width) * a + (i / width) * b) as u64 % (max + 1)) as u16)
                .collect()
        }
        2 => {
            // noise
            let mut r = g.sub();
            (0..n).map(|_| r.below(max + 1) as u16).collect()
        }
        3 => {
            // smooth with small noise
            let mut r = g.sub();
            let amp = 1 + g.below(64);
            let c = g.below(max + 1);
            (0..n)
                .map(|i| {
                    let base = c + (i % width) as u64 + (i / width) as u64 * 3 + r.below(amp);
                    let p = base % (2 * max + 2);
                    (if p > max { 2 * max + 1 - p } else { p }) as u16
                })
                .collect()
        }
        4 => {
            // extremes only
            let mut r = g.sub();
            (0..n)
                .map(|_| if r.below(2) == 0 { 0 } else { max as u16 })
                .collect()
        }
        5 => {
            // runs, random widths
            let mut r = g.sub();
            let mut out = Vec::with_capacity(n);
            while out.len() < n {
                let c = r.below(max + 1) as u16;
                let l = 1 + r.below(20) as usize;
                for _ in 0..l.min(n - out.len()) {
                    out.push(c);
                }
            }
            out
        }
        _ => {
            // random walk with steps of every magnitude
            let mut r = g.sub();
            let mut c = r.below(max + 1);
            (0..n)
                .map(|_| {
                    let mag = r.below(bits as u64 + 1);
                    let step = r.below(1 << mag);
                    c = if r.below(2) == 0 {
                        (c + step) & max
                    } else {
                        c.wrapping_sub(step) & max
                    };
                    c as u16
                })
                .collect()
        }
    };
    // A few single samples, individually shrinkable.
    if n > 0 {
        for _ in 0..g.below(4) {
            let i = g.idx(n);
            v[i] = g.edge(bits) as u16;
        }
    }
    v
}
