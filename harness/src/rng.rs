//! Small deterministic PRNG; every random choice of a run derives from VERIF_SEED.
#[derive(Clone)]
pub struct Rng {
    state: u64,
    /// strings that mean something in this history (the account, the owner, ...)
    marks: Vec<String>,
    /// strings and numbers used lately, so that equal values meet in different places
    recent: Vec<String>,
    nums: Vec<u64>,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng {
            state: mix(seed, 0xD1B5_4A32_D192_ED03),
            marks: vec![],
            recent: vec![],
            nums: vec![],
        }
    }
    /// Makes a string with a meaning available to the generators.
    #[allow(dead_code)]
    pub fn mark(&mut self, s: &str) {
        if !self.marks.iter().any(|m| m == s) {
            if self.marks.len() >= 12 {
                self.marks.remove(4);
            }
            self.marks.push(s.to_string());
        }
    }
    fn keep(&mut self, s: &str) {
        if s.len() <= 120 {
            if self.recent.len() >= 4 {
                self.recent.remove(0);
            }
            self.recent.push(s.to_string());
        }
    }
    /// A string seen before, if any.
    fn again(&mut self) -> Option<String> {
        let (m, r) = (self.marks.len(), self.recent.len());
        let i = self.below(m + r);
        if i < m {
            self.marks.get(i).cloned()
        } else {
            self.recent.get(i - m).cloned()
        }
    }
    /// An address-like string.
    #[allow(dead_code)]
    pub fn address(&mut self) -> String {
        if self.chance(1, 5) {
            if let Some(s) = self.again() {
                return s;
            }
        }
        let s = match self.below(6) {
            0 => self.text(),
            1 => format!("cosmosvaloper1{}", self.ident(38)),
            _ => format!("cosmos1{}", self.ident(38)),
        };
        self.keep(&s);
        s
    }
    pub fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.next() % (hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| u64::from(*w)).sum();
        let mut r = self.next() % total.max(1);
        for (i, w) in ws.iter().enumerate() {
            if r < u64::from(*w) {
                return i;
            }
            r -= u64::from(*w);
        }
        ws.len() - 1
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Bytes that mean something in JSON, in case somebody looks inside.
    pub fn literal(&mut self) -> Vec<u8> {
        self.pick(&[
            &b"null"[..], b"{}", b"[]", b"\"\"", b"true", b"false", b"0", b" ", b"\"null\"", b"{\"ok\":null}", b"\0", b"\n",
            b"AQ==", b"bnVsbA==", b"[null]",
        ])
        .to_vec()
    }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        if max >= 200 && self.chance(1, 150) {
            let n = self.huge();
            return (0..n).map(|i| (i % 251) as u8).collect();
        }
        if self.chance(1, 16) {
            let b = self.literal();
            return if b.len() <= max { b } else { vec![] };
        }
        let n = match self.below(20) {
            0..=2 => 0,
            3..=5 => 1,
            6 => self.edge(max.max(300)),
            7..=9 => self.below(max + 1),
            _ => self.below(max.min(24) + 1),
        };
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// A size at or next to one where a buffer or message limit might lie.
    fn huge(&mut self) -> usize {
        (1usize << (11 + self.below(7))) + self.below(3) - 1
    }
    /// A length at or next to one a size limit might be set at.
    pub fn edge(&mut self, max: usize) -> usize {
        let n = match self.below(3) {
            0 => *self.pick(&[10usize, 20, 50, 100, 200, 250, 500, 1000]),
            _ => 1usize << (3 + self.below(8)),
        };
        (n + self.below(3)).saturating_sub(1).min(max)
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = 1 + self.below(max.max(1));
        (0..n)
            .map(|_| *self.pick(b"abcdefghijklmnopqrstuvwxyz0123456789") as char)
            .collect()
    }
    /// Free text as it may appear in any user-controlled string field.
    pub fn text(&mut self) -> String {
        if self.chance(1, 400) {
            let n = self.huge().min(66_000);
            return (0..n).map(|i| (b'a' + (i % 25) as u8) as char).collect();
        }
        if self.chance(1, 10) {
            if let Some(s) = self.again() {
                return s;
            }
        }
        let s = self.fresh_text();
        self.keep(&s);
        s
    }
    fn fresh_text(&mut self) -> String {
        match self.below(16) {
            14 => {
                let n = self.edge(1100);
                (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect()
            }
            15 => {
                // whole words of every shape, so that no single character class is special
                let n = 1 + self.below(40);
                (0..n)
                    .map(|_| match self.below(9) {
                        // invisible and control characters: nothing may strip or trim them
                        8 => *self.pick(&[
                            '\0', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\r', '\u{1b}', '\u{7f}', '\u{85}',
                            '\u{a0}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{301}',
                        ]),
                        0 => char::from_u32(0x80 + self.below(0x700) as u32).unwrap_or('x'),
                        1 => char::from_u32(0x4e00 + self.below(0x1000) as u32).unwrap_or('x'),
                        _ => (0x20 + self.below(0x5f) as u8) as char,
                    })
                    .collect()
            }
            0 => String::new(),
            1 => " ".into(),
            2 => "\"quoted\\ \n\t/\u{1}".into(),
            13 => {
                let c = *self.pick(&["\0", "\r\n", "\u{200b}", "\u{feff}", "\u{a0}", "\u{7f}", "\t", "e\u{301}"]);
                match self.below(3) {
                    0 => format!("{c}mid"),
                    1 => format!("mid{c}"),
                    _ => format!("mi{c}d"),
                }
            }
            3 => "żółć🦀\u{10FFFF}é".into(),
            4 => " padded ".into(),
            5 => "UPPER/lower-Case_1.2".into(),
            // what a parser or a default might treat specially
            6 => self
                .pick(&[
                    "null", "{}", "[]", "\"\"", "none", "None", "undefined", "true", "false", "-", "/", "0x", "nil", "default", "*", "1", "-1", "NaN", "''",
                    "%20", "\\u0000", "<>", "&amp;", "..", "#", "?", "{\"memo\":\"\"}",
                ])
                .to_string(),
            7 => "{\"wasm\":{\"contract\":\"x\",\"msg\":{}}}".into(),
            8 => "0".into(),
            9 => {
                let n = 100 + self.below(400);
                (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
            }
            _ => {
                let n = self.below(20);
                (0..n)
                    .map(|_| *self.pick(b"abcXYZ019 -_./:") as char)
                    .collect()
            }
        }
    }
    pub fn u64v(&mut self) -> u64 {
        if !self.nums.is_empty() && self.chance(1, 8) {
            let i = self.below(self.nums.len());
            return self.nums[i];
        }
        let n = self.fresh_u64();
        if self.nums.len() >= 4 {
            self.nums.remove(0);
        }
        self.nums.push(n);
        n
    }
    fn fresh_u64(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => u64::from(u32::MAX),
            4 => u64::from(u32::MAX) + 1 + self.below(1000) as u64,
            5 => i64::MAX as u64 + self.below(2) as u64,
            6 => *self.pick(&[127u64, 128, 255, 256, 16383, 16384, 65535, 65536]),
            7 => (1 << 53) + 1,
            8 => self.next(),
            _ => self.below(1000) as u64,
        }
    }
    pub fn u128v(&mut self) -> u128 {
        match self.below(9) {
            0 => 0,
            1 => 1,
            2 => u128::MAX,
            3 => u128::from(u64::MAX),
            4 => u128::from(u64::MAX) + 1 + self.below(1000) as u128,
            5 => (u128::from(self.next()) << 64) | u128::from(self.next()),
            6 => u128::from(self.next()),
            _ => self.below(1_000_000) as u128,
        }
    }
}
