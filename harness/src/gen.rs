//! Data that cases are made of: small descriptors (which proptest shrinks) are
//! expanded into elements, keys and databases by a plain SplitMix generator.
//! Also the independent models: chunking, matrix products, noise bound.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
    pub fn new(seed: u64) -> Self {
        let mut s = seed ^ 0x6a09_e667_f3bc_c908;
        splitmix(&mut s);
        Mix(s)
    }
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    /// Uniform enough below n.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// What elements hold.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fill {
    Random,
    Zeros,
    Ones,
    /// one bit set, at a random place
    OneBit,
    /// the index of the element, little endian
    Counter,
    /// every chunk is an extreme value
    EdgeChunks,
    /// only the low bits of every chunk are set, so that wide chunks fit
    LowMag(u8),
    /// values of some columns are small or zero, in all elements alike
    Columns(u8),
    /// a mixture, element by element
    Mixed,
}
pub fn fill() -> impl Strategy<Value = Fill> {
    prop_oneof![
        5 => Just(Fill::Random),
        1 => Just(Fill::Zeros),
        2 => Just(Fill::Ones),
        1 => Just(Fill::OneBit),
        1 => Just(Fill::Counter),
        2 => Just(Fill::EdgeChunks),
        2 => (1u8..6).prop_map(Fill::LowMag),
        2 => any::<u8>().prop_map(Fill::Columns),
        3 => Just(Fill::Mixed),
    ]
}
/// A value drawn from lo..=hi with both ends, powers of two, multiples of 8
/// and their neighbours over-represented. Shrinks towards lo.
pub fn sized(lo: usize, hi: usize) -> BoxedStrategy<usize> {
    let mut edges = BTreeSet::new();
    for e in 0..24 {
        for d in [-1i64, 0, 1] {
            let v = (1i64 << e) + d;
            if v >= lo as i64 && v <= hi as i64 {
                edges.insert(v as usize);
            }
        }
    }
    for e in [lo, lo + 1, hi, hi.saturating_sub(1)] {
        if e >= lo && e <= hi {
            edges.insert(e);
        }
    }
    let edges: Vec<usize> = edges.into_iter().collect();
    let small = hi.min(lo + 12);
    prop_oneof![
        2 => proptest::sample::select(edges),
        2 => lo..=small,
        3 => lo..=hi,
    ]
    .boxed()
}

pub fn elem_bytes(bits: usize) -> usize {
    (bits + 7) / 8
}
/// Clears the bits beyond the element size.
pub fn mask_top(e: &mut [u8], bits: usize) {
    if bits % 8 != 0 {
        if let Some(l) = e.last_mut() {
            *l &= (1u16 << (bits % 8)) as u8 - 1;
        }
    }
}
pub fn get_bit(e: &[u8], i: usize) -> u32 {
    if i / 8 < e.len() {
        ((e[i / 8] >> (i % 8)) & 1) as u32
    } else {
        0
    }
}
fn set_bit(e: &mut [u8], i: usize) {
    e[i / 8] |= 1 << (i % 8);
}

/// One element of exactly elem_bytes(bits) bytes, unused bits zero.
pub fn element(i: usize, bits: usize, pb: usize, fill: Fill, rng: &mut Mix) -> Vec<u8> {
    let n = elem_bytes(bits);
    let mut e = match fill {
        Fill::Random => rng.bytes(n),
        Fill::Zeros => vec![0; n],
        Fill::Ones => vec![0xff; n],
        Fill::OneBit => {
            let mut v = vec![0; n];
            set_bit(&mut v, rng.below(bits));
            v
        }
        Fill::Counter => {
            let mut v = (i as u64).to_le_bytes().to_vec();
            v.resize(n.max(8), 0);
            v.truncate(n);
            v
        }
        Fill::EdgeChunks => {
            let mut v = vec![0; n];
            for c in 0..chunks(bits, pb) {
                let full = (1u64 << pb) - 1;
                let x = match rng.below(6) {
                    0 => 0,
                    1 => full,
                    2 => 1,
                    3 => full - 1,
                    4 => full / 2,
                    _ => full / 2 + 1,
                };
                for b in 0..pb {
                    let j = c * pb + b;
                    if (x >> b) & 1 == 1 && j < bits {
                        set_bit(&mut v, j);
                    }
                }
            }
            v
        }
        Fill::LowMag(k) => {
            let r = rng.bytes(n);
            let mut v = vec![0; n];
            for j in 0..bits {
                if j % pb < k as usize && get_bit(&r, j) == 1 {
                    set_bit(&mut v, j);
                }
            }
            v
        }
        Fill::Columns(salt) => {
            let r = rng.bytes(n);
            let mut v = vec![0; n];
            let mut width = 0;
            for j in 0..bits {
                if j % pb == 0 {
                    let c = Mix::new((j / pb) as u64 * 257 + salt as u64).next() as usize;
                    width = [0, 1, 8, 15, 16, 24, pb, pb][c >> 8 & 7];
                }
                if j % pb < width && get_bit(&r, j) == 1 {
                    set_bit(&mut v, j);
                }
            }
            v
        }
        Fill::Mixed => {
            let f = [Fill::Random, Fill::Zeros, Fill::Ones, Fill::OneBit, Fill::Counter, Fill::EdgeChunks][rng.below(6)];
            return element(i, bits, pb, f, rng);
        }
    };
    mask_top(&mut e, bits);
    e
}
pub fn elements(n: usize, bits: usize, pb: usize, fill: Fill, seed: u64) -> Vec<Vec<u8>> {
    let mut rng = Mix::new(seed);
    (0..n).map(|i| element(i, bits, pb, fill, &mut rng)).collect()
}
pub fn b64(v: &[u8]) -> String {
    base64::encode(v)
}
pub fn b64s(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|e| b64(e)).collect()
}

// ---- models ----------------------------------------------------------

/// Number of chunks of an element.
pub fn chunks(bits: usize, pb: usize) -> usize {
    (bits + pb - 1) / pb
}
/// Chunk c of an element: bits c*pb.. in little-endian order.
pub fn chunk(e: &[u8], c: usize, pb: usize) -> u32 {
    let mut x = 0u32;
    for b in 0..pb {
        x |= get_bit(e, c * pb + b) << b;
    }
    x
}
pub fn chunk_row(e: &[u8], bits: usize, pb: usize) -> Vec<u32> {
    (0..chunks(bits, pb)).map(|c| chunk(e, c, pb)).collect()
}
/// Column c of the chunk matrix.
pub fn column(elems: &[Vec<u8>], c: usize, pb: usize) -> Vec<u32> {
    elems.iter().map(|e| chunk(e, c, pb)).collect()
}
/// The sum of products modulo 2^32, computed wide.
pub fn dot(a: &[u32], b: &[u32]) -> u32 {
    assert_eq!(a.len(), b.len());
    let mut acc = 0u64;
    for (x, y) in a.iter().zip(b) {
        acc = acc.wrapping_add(*x as u64 * *y as u64);
    }
    acc as u32
}
/// Half a rounding step for this plaintext width: 2^32 / 2^pb / 2.
pub fn half_step(pb: usize) -> f64 {
    (1u64 << 32) as f64 / (1u64 << pb) as f64 / 2.0
}
/// Does ternary noise over this column stay below half a step, either always
/// or (ten standard deviations; uniform ternary variables are strictly
/// sub-Gaussian) except with probability below 1e-21?
pub fn noise_fits(sum: f64, sum_sq: f64, pb: usize) -> bool {
    let half = half_step(pb);
    sum < half || 10.0 * (2.0 / 3.0 * sum_sq).sqrt() < half
}
/// ... over every column of the database.
pub fn db_fits(elems: &[Vec<u8>], bits: usize, pb: usize) -> bool {
    // cheap bound first
    let m = elems.len() as f64;
    let max = ((1u64 << pb) - 1) as f64;
    if noise_fits(m * max, m * max * max, pb) {
        return true;
    }
    (0..chunks(bits, pb)).all(|c| {
        let (mut s, mut q) = (0f64, 0f64);
        for e in elems {
            let x = chunk(e, c, pb) as f64;
            s += x;
            q += x * x;
        }
        noise_fits(s, q, pb)
    })
}
/// The largest width up to `want` whose noise fits, with the elements for it.
pub fn fit_index_db(m: usize, bits: usize, want: usize, fill: Fill, seed: u64) -> (usize, Vec<Vec<u8>>) {
    let mut pb = want.clamp(1, 31);
    loop {
        let e = elements(m, bits, pb, fill, seed);
        if pb == 1 || db_fits(&e, bits, pb) {
            return (pb, e);
        }
        pb -= 1;
    }
}
/// Upper bound for the height of the filter matrix for n pairs (about
/// 1.125 n + 2 segments for many, up to 5.9 n plus rounding for few).
pub fn kv_height_bound(n: usize) -> f64 {
    if n < 2 {
        return 64.0;
    }
    let nf = n as f64;
    let factor = (0.875 + 0.25 * 1e6f64.ln() / nf.ln()).max(1.125);
    let seg = 2f64.powf((nf.ln() / 3.33f64.ln() + 2.25).floor());
    nf * factor + 4.0 * seg
}
/// Masked chunks are uniform below 2^pb. Is the noise of a keyword database of
/// n pairs below half a step (same margin)?
pub fn kv_fits(n: usize, pb: usize) -> bool {
    let h = kv_height_bound(n);
    let q = (1u64 << pb) as f64;
    // twelve sigma leave room for the random second moment of the column
    12.0 * (2.0 / 9.0 * h).sqrt() * q < half_step(pb) || h * q < half_step(pb)
}
pub fn fit_kv_pb(n: usize, want: usize) -> usize {
    let mut pb = want.clamp(8, 31);
    while pb > 8 && !kv_fits(n, pb) {
        pb -= 1;
    }
    pb
}

// ---- keys -------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum StrKeys {
    Random,
    Decimal,
    /// "", "a", "aa", ...
    Unary,
    LongPrefix,
    Unicode,
    /// base64 of the random 32 bytes, as the bench makes them
    Base64,
    /// keys that differ in case, spaces or one trailing character only
    NearCopies,
}
pub fn str_keys() -> impl Strategy<Value = StrKeys> {
    use StrKeys::*;
    proptest::sample::select(vec![Random, Decimal, Unary, LongPrefix, Unicode, Base64, NearCopies])
}
/// n distinct string keys.
pub fn string_keys(n: usize, kind: StrKeys, seed: u64) -> Vec<String> {
    let mut rng = Mix::new(seed);
    let mut seen = BTreeSet::new();
    let mut out = Vec::with_capacity(n);
    let mut i = 0u64;
    while out.len() < n {
        let k = match kind {
            StrKeys::Random => {
                let len = rng.below(20);
                rng.bytes(len).iter().map(|b| (b % 95 + 32) as char).collect::<String>()
            }
            StrKeys::Decimal => i.to_string(),
            StrKeys::Unary => {
                if n > 600 {
                    i.to_string()
                } else {
                    "a".repeat(i as usize)
                }
            }
            StrKeys::LongPrefix => format!("{}{}", "x".repeat(200), i),
            StrKeys::Unicode => {
                let len = 1 + rng.below(6);
                (0..len)
                    .map(|_| char::from_u32(rng.below(0x2_0000) as u32).unwrap_or('\u{10ffff}'))
                    .collect()
            }
            StrKeys::Base64 => b64(&rng.bytes(32)),
            StrKeys::NearCopies => {
                let base = format!("Key {}", i / 5);
                match i % 5 {
                    0 => base,
                    1 => base + " ",
                    2 => base.to_lowercase(),
                    3 => base + "\0",
                    _ => format!(" {}", base),
                }
            }
        };
        i += 1;
        if seen.insert(k.clone()) {
            out.push(k);
        } else if i > 50 * n as u64 + 1000 {
            out.push(format!("fallback {}", out.len()));
        }
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Key256 {
    Random,
    /// [i, 0, 0, 0]
    Counter(u8),
    /// [x, x, x, x]
    SameWords,
    /// all the orders of the same four words
    Permuted,
    /// a base key with few bits flipped
    NearCopies,
    /// words out of {0, 1, MAX, MAX-1, 2^63}
    Extremes,
    /// only the low bits of each word
    Small,
    /// digests
    Sha,
}
pub fn key256() -> impl Strategy<Value = Key256> {
    use Key256::*;
    prop_oneof![
        2 => Just(Random),
        2 => (0u8..4).prop_map(Counter),
        1 => Just(SameWords),
        2 => Just(Permuted),
        2 => Just(NearCopies),
        1 => Just(Extremes),
        1 => Just(Small),
        1 => Just(Sha),
    ]
}
pub fn keys256(n: usize, kind: Key256, seed: u64) -> Vec<[u64; 4]> {
    let mut rng = Mix::new(seed);
    let mut seen = BTreeSet::new();
    let mut out = Vec::with_capacity(n);
    let mut i = 0u64;
    let base = [rng.next(), rng.next(), rng.next(), rng.next()];
    let mut perm = base;
    while out.len() < n {
        let mut rnd = || [rng.next(), rng.next(), rng.next(), rng.next()];
        let k = match kind {
            Key256::Random => rnd(),
            Key256::Counter(w) => {
                let mut k = [0; 4];
                k[w as usize] = i;
                k
            }
            Key256::SameWords => [rnd()[0]; 4],
            Key256::Permuted => {
                let j = (i % 24) as usize;
                if j == 0 {
                    perm = rnd();
                }
                permutation(perm, j)
            }
            Key256::NearCopies => {
                let mut k = base;
                let flips = 1 + rng.below(3);
                for _ in 0..flips {
                    let b = rng.below(256);
                    k[b / 64] ^= 1 << (b % 64);
                }
                k
            }
            Key256::Extremes => {
                let w = [0, 1, u64::MAX, u64::MAX - 1, 1 << 63];
                let mut k = [0; 4];
                for x in k.iter_mut() {
                    *x = w[rng.below(5)];
                }
                k
            }
            Key256::Small => {
                let mut k = rnd();
                for x in k.iter_mut() {
                    *x &= 0xf;
                }
                k
            }
            Key256::Sha => crate::sha::words(&crate::sha::sha256(&i.to_le_bytes())),
        };
        i += 1;
        if seen.insert(k) {
            out.push(k);
        } else if i > 30 * n as u64 + 1000 {
            let k = rnd_key(&mut rng);
            if seen.insert(k) {
                out.push(k);
            }
        }
    }
    out
}
pub fn rnd_key(rng: &mut Mix) -> [u64; 4] {
    [rng.next(), rng.next(), rng.next(), rng.next()]
}
fn permutation(k: [u64; 4], mut j: usize) -> [u64; 4] {
    let mut v = k.to_vec();
    let mut out = [0; 4];
    for (i, o) in out.iter_mut().enumerate() {
        let r = 4 - i;
        *o = v.remove(j % r);
        j /= r;
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Key64 {
    Random,
    Sequential(u64),
    /// i << shift
    Shifted(u8),
    /// dense clusters far apart
    Clustered,
    /// 0, 1, MAX, powers of two and neighbours, then random
    Extreme,
    /// hashes to zero under the first seed of the library, and neighbours
    ZeroHash,
    Multiples(u64),
    /// the hashes under the n-th seed of the library (counted from 0) differ
    /// from one of a few values in the bits of the mask only, so that they
    /// crowd some places of the filter and seeds fail
    Crafted { mask: u64, groups: u16, nth: u8 },
}
/// Masks of the bits in which crafted hashes differ.
fn hash_mask() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => (1u32..64).prop_map(|b| (1u64 << b) - 1),
        2 => (1u32..64).prop_map(|b| !((1u64 << b) - 1)),
        3 => (0u32..64, 1u32..64).prop_map(|(at, b)| ((1u64 << b) - 1).rotate_left(at)),
        2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b),
        1 => (0u32..18).prop_map(|b| 0x0000_3ffc_0000_0000 | ((1u64 << b) - 1)),
    ]
}
pub fn key64() -> impl Strategy<Value = Key64> {
    prop_oneof![
        11 => uncrafted64(),
        2 => (hash_mask(), prop_oneof![3 => 1u16..4, 1 => 4u16..300], prop_oneof![4 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(mask, groups, nth)| Key64::Crafted { mask, groups, nth }),
    ]
}
/// Keys that are not made up from the hash function.
pub fn uncrafted64() -> impl Strategy<Value = Key64> {
    use Key64::*;
    prop_oneof![
        3 => Just(Random),
        2 => prop_oneof![Just(0u64), Just(1), Just(u64::MAX - 100), any::<u64>()].prop_map(Sequential),
        2 => (0u8..64).prop_map(Shifted),
        1 => Just(Clustered),
        1 => Just(Extreme),
        1 => Just(ZeroHash),
        1 => prop_oneof![Just(3u64), Just(0x9e37_79b9_7f4a_7c15), Just(1 << 32), any::<u64>().prop_map(|x| x | 1)].prop_map(Multiples),
    ]
}
/// The first value of SplitMix64 from state 1, which the set filters use as
/// their first seed: the key -seed has the hash 0.
pub const FIRST_SEED: u64 = 0x910a_2dec_8902_5cc1;
/// The key of a given hash under the n-th seed of the library.
pub fn key_of_hash(hash: u64, nth: u8) -> u64 {
    // SplitMix64 from state 1
    let mut z = 1u64.wrapping_add(0x9e37_79b9_7f4a_7c15u64.wrapping_mul(nth as u64 + 1));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    key_of_hash_from(hash, z ^ (z >> 31))
}
/// Likewise for any seed of a set filter.
pub fn key_of_hash_from(hash: u64, seed: u64) -> u64 {
    // the inverse of MurmurHash3's finalizer
    let mut k = hash;
    k ^= k >> 33;
    k = k.wrapping_mul(0x9cb4_b2f8_1293_37db);
    k ^= k >> 33;
    k = k.wrapping_mul(0x4f74_430c_22a5_4005);
    k ^= k >> 33;
    k.wrapping_sub(seed)
}
pub fn keys64(n: usize, kind: Key64, seed: u64) -> Vec<u64> {
    let mut rng = Mix::new(seed);
    let mut seen = BTreeSet::new();
    let mut out = Vec::with_capacity(n);
    let mut i = 0u64;
    let start = rng.next();
    while out.len() < n {
        let k = match kind {
            Key64::Random => rng.next(),
            Key64::Sequential(s) => s.wrapping_add(i),
            Key64::Shifted(b) => i.wrapping_shl(b as u32),
            Key64::Clustered => (rng.next() & 0xff00_0000_0000_0000) | (i & 0xff) << 8 | rng.next() & 0xff,
            Key64::Extreme => match i {
                0 => 0,
                1 => u64::MAX,
                2..=129 => {
                    let b = 1u64 << ((i - 2) / 2);
                    if i % 2 == 0 { b } else { b.wrapping_sub(1) }
                }
                _ => rng.next(),
            },
            Key64::ZeroHash => {
                if i < 64 {
                    FIRST_SEED.wrapping_neg().wrapping_add(i)
                } else {
                    rng.next()
                }
            }
            Key64::Multiples(x) => start.wrapping_add(i.wrapping_mul(x)),
            Key64::Crafted { mask, groups, nth } => {
                let g = Mix::new(seed ^ (rng.next() % groups.max(1) as u64)).next();
                key_of_hash(g & !mask | rng.next() & mask, nth)
            }
        };
        i += 1;
        if seen.insert(k) {
            out.push(k);
        } else if i > 10 * n as u64 + 1000 {
            let k = rng.next();
            if seen.insert(k) {
                out.push(k);
            }
        }
    }
    out
}

// ---- JSON texts ------------------------------------------------------------

/// The same JSON value in one of six layouts that a JSON writer may choose:
/// compact, indented, slashes escaped, every character of strings escaped,
/// odd whitespace, object members in reverse order.
pub fn json_text(v: &serde_json::Value, style: u8) -> String {
    let mut out = String::new();
    match style % 6 {
        0 => return serde_json::to_string(v).unwrap(),
        1 => return serde_json::to_string_pretty(v).unwrap(),
        _ => {}
    }
    let space = |out: &mut String, i: usize| {
        if style % 6 == 4 {
            out.push_str([" ", "\r\n", "\t", "", "\n\n  "][i % 5]);
        }
    };
    fn text(s: &str, style: u8, out: &mut String) {
        out.push('"');
        match style % 6 {
            2 => {
                let t = serde_json::to_string(s).unwrap();
                out.push_str(&t[1..t.len() - 1].replace('/', "\\/"))
            }
            3 => s.encode_utf16().for_each(|u| out.push_str(&format!("\\u{:04x}", u))),
            _ => {
                let t = serde_json::to_string(s).unwrap();
                out.push_str(&t[1..t.len() - 1])
            }
        }
        out.push('"');
    }
    fn go(v: &serde_json::Value, style: u8, out: &mut String, space: &dyn Fn(&mut String, usize)) {
        use serde_json::Value::*;
        match v {
            String(s) => text(s, style, out),
            Array(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    space(out, i);
                    go(x, style, out, space);
                    space(out, i / 2);
                }
                out.push(']');
            }
            Object(o) => {
                let mut members: Vec<_> = o.iter().collect();
                if style % 6 == 5 {
                    members.reverse();
                }
                out.push('{');
                for (i, (k, x)) in members.into_iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    space(out, i);
                    text(k, style, out);
                    space(out, i + 1);
                    out.push(':');
                    space(out, i + 2);
                    go(x, style, out, space);
                }
                out.push('}');
            }
            other => out.push_str(&other.to_string()),
        }
    }
    space(&mut out, 4);
    go(v, style, &mut out, &space);
    space(&mut out, 1);
    out
}
