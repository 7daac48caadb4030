//! Small deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ stream.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x5851_F42D);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    pub fn copy<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.us(xs.len())]
    }
    pub fn fill(&mut self, out: &mut [u8]) {
        for c in out.chunks_mut(8) {
            let b = self.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(&mut v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut v = [0; N];
        self.fill(&mut v);
        v
    }
    /// One of the lowest `n` bits.
    pub fn bit(&mut self, n: u64) -> u64 {
        1 << self.below(n)
    }
    /// Something else that resembles `x`: what a comparison that looks at less
    /// than everything takes for the same.
    pub fn near<const N: usize>(&mut self, x: [u8; N]) -> [u8; N] {
        let mut y = x;
        let at = self.us(N);
        match self.below(7) {
            0 => y[at] ^= 1 << self.below(8),
            1 => y[at] = y[at].wrapping_add(1 + self.below(255) as u8),
            // what follows, or what precedes, is another's
            2 => self.fill(&mut y[at..]),
            3 => self.fill(&mut y[..at + 1]),
            // the same bytes in another order
            4 => y.swap(at, (at + 1) % N),
            5 => y.rotate_left(at),
            _ => {
                let k = N / 4 * self.range(1, 3) as usize;
                if self.chance(1, 2) {
                    self.fill(&mut y[k..])
                } else {
                    self.fill(&mut y[..k])
                }
            }
        }
        if y == x {
            y[at] ^= 0x40;
        }
        y
    }
}
