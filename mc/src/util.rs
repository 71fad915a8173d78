pub struct H(pub u64, pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325, 0x9ae16a3b2f90404f)
    }
    #[inline]
    pub fn u(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.0 ^= self.0 >> 29;
        self.1 = (self.1.rotate_left(23) ^ x).wrapping_mul(0xD6E8FEB86659FD93);
        self.1 ^= self.1 >> 31;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(a));
        }
    }
    pub fn fin(&self) -> u128 {
        ((self.0 as u128) << 64) | self.1 as u128
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<usize> = (0..n).collect();
    fn rec(k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == cur.len() {
            out.push(cur.clone());
            return;
        }
        for i in k..cur.len() {
            cur.swap(k, i);
            rec(k + 1, cur, out);
            cur.swap(k, i);
        }
    }
    rec(0, &mut cur, &mut out);
    out
}
