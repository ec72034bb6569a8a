pub struct Rng(u64);
impl Rng {
    pub fn new(a: u64, b: u64, c: u64) -> Self {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1342543DE82EF95) ^ c.wrapping_mul(0xA24BAED4963EE407) ^ 0x1234567);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % (b - a + 1) as u64) as i64 }
    pub fn chance(&mut self, pct: u32) -> bool { self.next() % 100 < pct as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|&x| x as u64).sum();
        let mut k = self.next() % t.max(1);
        for (i, &x) in w.iter().enumerate() { if k < x as u64 { return i; } k -= x as u64; }
        0
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
