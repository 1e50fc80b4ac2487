//! SHA-256 and the chain's derivation of predictable contract addresses, written independently.
pub fn sha256(data: &[u8]) -> [u8; 32] {
    // FIPS 180-4
    fn primes(n: usize) -> Vec<u64> {
        (2u64..).filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).take(n).collect()
    }
    fn frac(x: f64) -> u32 {
        ((x - x.floor()) * 4_294_967_296.0) as u32
    }
    let ps = primes(64);
    let k: Vec<u32> = ps.iter().map(|p| frac((*p as f64).cbrt())).collect();
    let mut h: Vec<u32> = ps.iter().take(8).map(|p| frac((*p as f64).sqrt())).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend(((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w: Vec<u32> = c.chunks(4).map(|b| u32::from_be_bytes([b[0], b[1], b[2], b[3]])).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0; 32];
    for (i, x) in h.iter().enumerate() {
        out[i * 4..i * 4 + 4].copy_from_slice(&x.to_be_bytes());
    }
    out
}

/// The address the chain gives to an instantiate2 (ADR-028 module address, empty message).
pub fn chain_address(checksum: &[u8], creator: &[u8], salt: &[u8]) -> Vec<u8> {
    let mut key = b"wasm\0".to_vec();
    for part in [checksum, creator, salt, &[][..]] {
        key.extend((part.len() as u64).to_be_bytes());
        key.extend(part);
    }
    let mut all = sha256(b"module").to_vec();
    all.extend(key);
    sha256(&all).to_vec()
}

