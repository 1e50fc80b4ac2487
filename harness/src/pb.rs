//! Hand-written protobuf wire format writer/reader, independent of the crates the
//! contract uses to encode, so that the oracle does not share their definitions.
#[derive(Clone, Default)]
pub struct Pb(pub Vec<u8>);

fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

impl Pb {
    pub fn new() -> Self {
        Pb(vec![])
    }
    /// proto3 scalar: default values are omitted
    pub fn u64(mut self, field: u32, v: u64) -> Self {
        if v != 0 {
            varint(&mut self.0, u64::from(field) << 3);
            varint(&mut self.0, v);
        }
        self
    }
    pub fn bytes(self, field: u32, v: &[u8]) -> Self {
        if v.is_empty() {
            self
        } else {
            self.len(field, v)
        }
    }
    pub fn str(self, field: u32, v: &str) -> Self {
        self.bytes(field, v.as_bytes())
    }
    /// always present: sub-message or repeated element
    pub fn len(mut self, field: u32, v: &[u8]) -> Self {
        varint(&mut self.0, (u64::from(field) << 3) | 2);
        varint(&mut self.0, v.len() as u64);
        self.0.extend_from_slice(v);
        self
    }
    pub fn msg(self, field: u32, v: Pb) -> Self {
        self.len(field, &v.0)
    }
    pub fn msgs(mut self, field: u32, vs: impl IntoIterator<Item = Pb>) -> Self {
        for v in vs {
            self = self.msg(field, v);
        }
        self
    }
    pub fn done(self) -> Vec<u8> {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Int(u64),
    Len(Vec<u8>),
    Fixed(Vec<u8>),
}

fn read_varint(b: &[u8], pos: &mut usize) -> Option<u64> {
    let mut v: u64 = 0;
    let mut shift = 0;
    loop {
        let x = *b.get(*pos)?;
        *pos += 1;
        if shift >= 64 {
            return None;
        }
        v |= u64::from(x & 0x7f) << shift;
        if x & 0x80 == 0 {
            return Some(v);
        }
        shift += 7;
    }
}

pub fn parse(b: &[u8]) -> Option<Vec<(u32, Val)>> {
    let mut pos = 0;
    let mut out = vec![];
    while pos < b.len() {
        let key = read_varint(b, &mut pos)?;
        let field = u32::try_from(key >> 3).ok()?;
        let v = match key & 7 {
            0 => Val::Int(read_varint(b, &mut pos)?),
            2 => {
                let n = usize::try_from(read_varint(b, &mut pos)?).ok()?;
                let s = b.get(pos..pos.checked_add(n)?)?.to_vec();
                pos += n;
                Val::Len(s)
            }
            1 => {
                let s = b.get(pos..pos + 8)?.to_vec();
                pos += 8;
                Val::Fixed(s)
            }
            5 => {
                let s = b.get(pos..pos + 4)?.to_vec();
                pos += 4;
                Val::Fixed(s)
            }
            _ => return None,
        };
        out.push((field, v));
    }
    Some(out)
}

pub fn rep(fields: &[(u32, Val)], n: u32) -> Vec<Vec<u8>> {
    fields
        .iter()
        .filter(|(f, _)| *f == n)
        .filter_map(|(_, v)| match v {
            Val::Len(b) => Some(b.clone()),
            _ => None,
        })
        .collect()
}

pub fn string(fields: &[(u32, Val)], n: u32) -> String {
    rep(fields, n)
        .last()
        .map(|b| String::from_utf8_lossy(b).into_owned())
        .unwrap_or_default()
}

/// Equality of two encodings of one message: identical bytes, or identical up to the order
/// of differently numbered fields (which protobuf leaves to the encoder).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    match (parse(a), parse(b)) {
        (Some(mut x), Some(mut y)) => {
            x.sort_by_key(|f| f.0);
            y.sort_by_key(|f| f.0);
            x == y
        }
        _ => false,
    }
}

pub fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (u32::from(c[0]) << 16)
            | (u32::from(*c.get(1).unwrap_or(&0)) << 8)
            | u32::from(*c.get(2).unwrap_or(&0));
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[((n >> (18 - 6 * i)) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            b'=' => continue,
            _ => return None,
        };
        acc = (acc << 6) | u32::from(v);
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    Some(out)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
