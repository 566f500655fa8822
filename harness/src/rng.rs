//! Deterministic pseudo-random numbers (xoshiro256**, seeded by splitmix64).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(z: &mut u64) -> u64 {
    *z = z.wrapping_add(0x9E3779B97F4A7C15);
    let mut x = *z;
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    let mut z = h;
    splitmix(&mut z)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        let mut z = seed ^ hash_str(stream).rotate_left(17) ^ idx.wrapping_mul(0xD6E8FEB86659FD93);
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            *v = splitmix(&mut z);
        }
        Rng { s }
    }

    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }

    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }

    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }

    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }

    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }

    /// A multiple of 1/4 in [-range, range].
    pub fn dyadic(&mut self, range: i64) -> f64 {
        self.range(-range * 4, range * 4) as f64 / 4.
    }

    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) {
            1.
        } else {
            -1.
        }
    }

    /// A finite constant with a bias to the special ones.
    pub fn constant(&mut self) -> f64 {
        match self.below(20) {
            0 => 0.,
            1 => 1.,
            2 => -1.,
            3 => 2.,
            4 => -2.,
            5 => 0.5,
            6 => 3.,
            7 => -0.25,
            8 => 10.,
            9 => *self.pick(&[1e-3, 100., -1e4, 1e-6, 1e6, -0., 7.5e-9]),
            10 => match self.below(4) {
                // close to a special one
                0 => *self.pick(&[1., -1., 2., 0.5]) * (1. + self.sign() * 10f64.powf(self.uniform(-15., -2.))),
                1 => self.sign() * 10f64.powf(self.uniform(-14., -4.)),
                2 => *self.pick(&[16777217., -123456789.25, 1e8, 987654.3210987]),
                _ => self.dyadic(6),
            },
            11..=14 => self.dyadic(6),
            _ => self.uniform(-5., 5.),
        }
    }

    /// As constant, but not zero.
    pub fn nonzero(&mut self) -> f64 {
        loop {
            let c = self.constant();
            if c != 0. {
                return c;
            }
        }
    }
}
