//! SHA-256, written from FIPS 180-4 for use as an oracle.
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}
/// First 32 bits of the fractional part of p^(1/k), by integer search.
fn frac_root(p: u64, k: u32) -> u32 {
    // the largest r with r^k <= p * 2^(32 k)
    let target = |r: u128| -> bool {
        // r < 2^40, p < 512: compare r^k with p << 32k without overflow
        let mut a = [r, 0u128];
        for _ in 1..k {
            // multiply the 256-bit number a by r (r < 2^40)
            let lo = (a[0] & ((1 << 64) - 1)) * r;
            let mid = (a[0] >> 64) * r + (lo >> 64);
            a = [(mid << 64) | (lo & ((1 << 64) - 1)), a[1] * r + (mid >> 64)];
        }
        let shift = 32 * k;
        let b = if shift < 128 { [(p as u128) << shift, if shift > 118 { (p as u128) >> (128 - shift) } else { 0 }] } else { [0, p as u128] };
        (a[1], a[0]) <= (b[1], b[0])
    };
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if target(mid) {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u32
}
pub fn sha256(input: &[u8]) -> [u8; 32] {
    use std::sync::OnceLock;
    static T: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    let (h0, k) = T.get_or_init(|| {
        let p = primes(64);
        (p[..8].iter().map(|p| frac_root(*p, 2)).collect(), p.iter().map(|p| frac_root(*p, 3)).collect())
    });
    let mut h = h0.clone();
    let mut msg = input.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&((input.len() as u64) * 8).to_be_bytes());
    for block in msg.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut out = [0u8; 32];
    for i in 0..8 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}
/// The digest as four little-endian words.
pub fn words(d: &[u8; 32]) -> [u64; 4] {
    let mut k = [0u64; 4];
    for i in 0..4 {
        for j in 0..8 {
            k[i] |= (d[8 * i + j] as u64) << (8 * j);
        }
    }
    k
}
#[test]
fn known_answers() {
    fn hex(d: [u8; 32]) -> String {
        d.iter().map(|b| format!("{:02x}", b)).collect()
    }
    assert_eq!(hex(sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    assert_eq!(hex(sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
}
