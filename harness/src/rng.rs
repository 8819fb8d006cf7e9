//! Deterministic random numbers: every case of every stage has its own generator, seeded from
//! (VERIF_SEED, stage name, case index), so any case can be replayed alone.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ (b.len() as u64);
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    for x in it.remainder() {
        h = (h ^ *x as u64).wrapping_mul(0x0100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stage: &str, idx: u64) -> Rng {
        let a = mix(seed ^ hash_bytes(stage.as_bytes()));
        let b = mix(a ^ idx.wrapping_mul(0xD134_2543_DE82_EF95));
        Rng(b, mix(b ^ 0x5555) | 1)
    }

    pub fn u64(&mut self) -> u64 {
        let (mut s1, s0) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % (n as u64)) as usize
    }

    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// True once in n.
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn bool(&mut self) -> bool {
        self.u64() & 0x8000 != 0
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
