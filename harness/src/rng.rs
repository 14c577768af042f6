/// integer and string literals found in the code under test (optional; makes special-cased values likely)
pub struct Dict { pub ints: Vec<i64>, pub lens: Vec<usize>, pub strs: Vec<String> }
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn load_dict(path: &str) {
    let mut d = Dict { ints: vec![], lens: vec![], strs: vec![] };
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix("i ") { if let Ok(v) = x.trim().parse::<i128>() { for k in [v - 1, v, v + 1] { d.ints.push(k as i64); if k > 0 && k <= 70_000 { d.lens.push(k as usize); } } } }
        else if let Some(x) = l.strip_prefix("s ") { d.strs.push(x.to_string()); }
    }
    let _ = DICT.set(d);
}
fn dict() -> Option<&'static Dict> { DICT.get() }
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    /// 64-bit integers with boundaries of every varint length and sign change over-represented
    pub fn int(&mut self) -> i64 {
        if let Some(d) = dict() { if !d.ints.is_empty() && self.chance(1, 10) { return *self.pick(&d.ints); } }
        match self.below(8) {
            0 => *self.pick(&[0i64, 1, -1, 2, -2, i64::MAX, i64::MIN, i32::MAX as i64, i32::MIN as i64, i16::MAX as i64, i16::MIN as i64, u32::MAX as i64, 127, 128, -128, -129, 63, 64, -64, -65]),
            1 | 2 => { let k = self.below(64); let b = 1i64.wrapping_shl(k as u32); let d = self.below(5) as i64 - 2; let v = b.wrapping_add(d); if self.chance(1, 2) { v.wrapping_neg() } else { v } }
            3 => { let k = self.below(64); (self.next() >> k) as i64 }
            4 => { let k = self.below(64); ((self.next() >> k) as i64).wrapping_neg() }
            5 => self.next() as i64,
            _ => self.below(300) as i64 - 100,
        }
    }
    pub fn i32v(&mut self) -> i32 { if self.chance(1, 8) { *self.pick(&[i32::MIN, i32::MAX, -1, 0, 1, i32::MIN + 1, 63, 64, -64, -65, 8191, 8192, -8192, -8193, 1048575, 1048576, -1048576, -1048577, 134217727, 134217728, -134217728, -134217729]) } else { self.int() as i32 } }
    pub fn i16v(&mut self) -> i16 { if self.chance(1, 8) { *self.pick(&[i16::MIN, i16::MAX, -1, 0, 1, 14, 15, 16, 63, 64, -64, -65, 8191, 8192, -8192, -8193]) } else { self.int() as i16 } }
    pub fn u32v(&mut self) -> u32 { if self.chance(1, 8) { *self.pick(&[0u32, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, u32::MAX, 0x8000_0000]) } else { self.int() as u32 } }
    pub fn len(&mut self) -> usize {
        if let Some(d) = dict() { if !d.lens.is_empty() && self.chance(1, 60) { let n = *self.pick(&d.lens); if n <= 600 || self.chance(1, 12) { return n; } } }
        match self.below(40) { 0 => *self.pick(&[127usize, 128, 129]), 1 => *self.pick(&[14usize, 15, 16]), 2 => self.below(300), 3 => if self.chance(1, 12) { *self.pick(&[16383usize, 16384, 16385]) } else { 17 }, _ => self.below(9) }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn string(&mut self, n: usize) -> String {
        if let Some(d) = dict() { if !d.strs.is_empty() && self.chance(1, 20) { return self.pick(&d.strs).clone(); } }
        let mut s = String::new();
        while s.len() < n {
            let room = n - s.len();
            let c = match self.below(6) { 0 if room >= 2 => *self.pick(&['\u{80}', '\u{7ff}', 'é', 'ß']), 1 if room >= 3 => *self.pick(&['\u{800}', '\u{ffff}', '漢', '\u{d7ff}', '\u{e000}']), 2 if room >= 4 => *self.pick(&['\u{10000}', '\u{10ffff}', '😀']), 3 => '\0', _ => (b'a' + self.below(26) as u8) as char };
            s.push(c);
        }
        s
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng(a.wrapping_mul(0xD129_0B26_4B8F_4E4D) ^ b); r.next(); r.next() }
