//! Independent reference implementations (written from the RFCs), cross-checked against the
//! sha2 / blake2s_simd crates in the self test.
const K: [u32; 64] = [
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
    0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
    0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
    0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
    0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
    0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];
const IV: [u32; 8] = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];
fn compress(h: &mut [u32; 8], block: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 {
        w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
    }
    let mut s = *h;
    for i in 0..64 {
        let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
        let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
        let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
        let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
        let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
        let t2 = s0.wrapping_add(mj);
        s = [t1.wrapping_add(t2), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
    }
    for i in 0..8 {
        h[i] = h[i].wrapping_add(s[i]);
    }
}
fn out_be(h: &[u32; 8]) -> Vec<u8> {
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn sha256_block(block: &[u8; 64]) -> Vec<u8> {
    let mut h = IV;
    compress(&mut h, block);
    out_be(&h)
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    let mut h = IV;
    for b in p.chunks(64) {
        compress(&mut h, b);
    }
    out_be(&h)
}
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn b2(h: &mut [u32; 8], block: &[u8], t: u64, last: bool) {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    if last {
        v[14] = !v[14];
    }
    let g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32, v: &mut [u32; 16]| {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(12);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(8);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(7);
    };
    for s in SIGMA.iter() {
        g(0, 4, 8, 12, m[s[0]], m[s[1]], &mut v);
        g(1, 5, 9, 13, m[s[2]], m[s[3]], &mut v);
        g(2, 6, 10, 14, m[s[4]], m[s[5]], &mut v);
        g(3, 7, 11, 15, m[s[6]], m[s[7]], &mut v);
        g(0, 5, 10, 15, m[s[8]], m[s[9]], &mut v);
        g(1, 6, 11, 12, m[s[10]], m[s[11]], &mut v);
        g(2, 7, 8, 13, m[s[12]], m[s[13]], &mut v);
        g(3, 4, 9, 14, m[s[14]], m[s[15]], &mut v);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}
pub fn blake2s(m: &[u8], person: &[u8; 8]) -> Vec<u8> {
    let mut h = IV;
    h[0] ^= 0x0101_0000 ^ 32;
    h[6] ^= u32::from_le_bytes([person[0], person[1], person[2], person[3]]);
    h[7] ^= u32::from_le_bytes([person[4], person[5], person[6], person[7]]);
    let mut off = 0;
    while m.len() - off > 64 {
        b2(&mut h, &m[off..off + 64], (off + 64) as u64, false);
        off += 64;
    }
    let mut last = [0u8; 64];
    last[..m.len() - off].copy_from_slice(&m[off..]);
    b2(&mut h, &last, m.len() as u64, true);
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}
pub fn self_test() {
    use sha2::Digest;
    for n in 0..200usize {
        let m: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect();
        assert_eq!(sha256(&m), sha2::Sha256::digest(&m).to_vec());
        let p = [n as u8, 1, 2, 3, 4, 5, 6, 255 - n as u8];
        let r = blake2s_simd::Params::new().hash_length(32).personal(&p).hash(&m);
        assert_eq!(blake2s(&m, &p), r.as_bytes().to_vec());
    }
}
