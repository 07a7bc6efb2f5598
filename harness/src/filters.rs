//! P09 (storage filter), P11 (no false negatives), P12 (false positives and
//! size), and the set filters' part of P10. Uses nothing of the protocol, so
//! that the companion crate can run it over a filter crate without padding.
use crate::core::*;
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
#[allow(deprecated)]
use xorf::{Fuse16, Fuse32, Fuse8};
use xorf::{BinaryFuse16, BinaryFuse32, BinaryFuse8, BinaryFuseP32, Filter, HashProxy, Xor16, Xor32, Xor8};

// ---- P09 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreCase {
    pub n: usize,
    pub keys: Key256,
    pub modulus: u64,
    pub label: u64,
    pub edge_data: bool,
    pub const_seed: u8,
    pub seed: u64,
}
fn modulus() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => (8u32..=32).prop_map(|e| 1u64 << e),
        2 => proptest::sample::select(vec![
            257u64, 65_521, 65_537, 1_000_003, (1 << 31) - 1, (1 << 31) + 11, (1 << 32) - 5, (1 << 32) - 1, 3 << 30, 1000, 1023,
            (1 << 31) + 1, 256 * 3, 0xff_ffff,
        ]),
        3 => 256u64..=(1 << 32),
    ]
    .boxed()
}
fn store_strat(lo: usize, hi: usize) -> BoxedStrategy<StoreCase> {
    (
        sized(lo, hi),
        key256(),
        modulus(),
        prop_oneof![2 => 0u64..4, 1 => any::<u64>(), 1 => Just(u64::MAX)],
        any::<bool>(),
        prop_oneof![6 => Just(0u8), 1 => 1u8..4],
        any::<u64>(),
    )
        .prop_map(|(n, keys, modulus, label, edge_data, const_seed, seed)| StoreCase {
            n,
            keys,
            modulus,
            label,
            edge_data,
            const_seed,
            seed,
        })
        .boxed()
}
pub fn seed32(rng: &mut Mix) -> [u8; 32] {
    let mut s = [0; 32];
    s.copy_from_slice(&rng.bytes(32));
    s
}
pub const STORE_TRIES: usize = 20;
pub fn p09(c: &StoreCase, ctx: &mut Ctx) -> Res {
    let keys = keys256(c.n, c.keys, c.seed ^ 9);
    p09_with(c, keys, None, ctx)
}
/// Random keys of which the first `crowd` share a position under the seed.
pub fn crowded_keys(n: usize, crowd: usize, at: usize, seed: [u8; 32], rng: &mut Mix) -> Result<Vec<[u64; 4]>, String> {
    let mut keys: Vec<[u64; 4]> = (0..n).map(|_| rnd_key(rng)).collect();
    let any = (0..STORE_TRIES)
        .find_map(|_| BinaryFuseP32::from_slice(seed32(rng), &keys, &vec![0; n], 0, 256).ok())
        .ok_or_else(|| format!("no filter over {} keys with {} seeds", n, STORE_TRIES))?;
    let pos = |k: &[u64; 4]| BinaryFuseP32::hash_eval(k, seed, any.segment_length, any.segment_length_mask, any.segment_count_length)[at];
    let want = pos(&keys[0]);
    for i in 1..crowd.min(n) {
        while pos(&keys[i]) != want {
            keys[i] = rnd_key(rng);
        }
    }
    Ok(keys)
}
/// A storage filter whose first seed puts many keys at one position.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrowdCase {
    pub store: StoreCase,
    pub crowd: usize,
    pub at: u8,
}
fn crowd_strat() -> BoxedStrategy<CrowdCase> {
    (store_strat(1, 250), prop_oneof![1 => 2usize..60, 2 => 60usize..70, 1 => 60usize..140], 0u8..3)
        .prop_map(|(mut store, crowd, at)| {
            store.n = store.n.max(crowd);
            CrowdCase { store, crowd, at }
        })
        .boxed()
}
pub fn p09_crowd(c: &CrowdCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.store.seed ^ 0xc0);
    let seed = seed32(&mut rng);
    let keys = crowded_keys(c.store.n, c.crowd, c.at as usize, seed, &mut rng)?;
    p09_with(&c.store, keys, Some(seed), ctx)
}
fn p09_with(c: &StoreCase, keys: Vec<[u64; 4]>, first: Option<[u8; 32]>, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed);
    let p = c.modulus;
    let data: Vec<u32> = (0..c.n)
        .map(|_| {
            if c.edge_data {
                let e = [0, 1, (p - 1) as u32, (p / 2) as u32, u32::MAX, (p % (1 << 32)) as u32];
                e[rng.below(6)]
            } else {
                rng.next() as u32
            }
        })
        .collect();
    let mut built = None;
    let mut tries = 0;
    for k in 0..STORE_TRIES {
        let seed = match (k, c.const_seed) {
            (0, _) if first.is_some() => first.unwrap(),
            (0, 1) => [0; 32],
            (0, 2) => [0xff; 32],
            (0, 3) => [0x55; 32],
            _ => seed32(&mut rng),
        };
        tries += 1;
        if let Ok(f) = BinaryFuseP32::from_slice(seed, &keys, &data, c.label, p) {
            built = Some((seed, f));
            break;
        }
    }
    let (seed, f) = built.ok_or_else(|| format!("no filter over {} keys with {} seeds", c.n, STORE_TRIES))?;
    // the same seed works again, from a vector, for other labels and other data
    let v = e2s("from_vec with a seed that from_slice accepts", BinaryFuseP32::from_vec(seed, keys.clone(), &data, c.label, p))?;
    let label2 = c.label.wrapping_add(1 + rng.next() % 1000);
    let data2: Vec<u32> = (0..c.n).map(|_| rng.next() as u32).collect();
    let g = e2s("from_slice with another label", BinaryFuseP32::from_slice(seed, &keys, &data2, label2, p))?;
    for (x, what) in [(&v, "from_vec"), (&g, "from_slice with another label")] {
        ensure_eq!(
            (x.segment_length, x.segment_length_mask, x.segment_count_length, x.len()),
            (f.segment_length, f.segment_length_mask, f.segment_count_length, f.len()),
            "shape of the filter made by {}",
            what
        );
    }
    let fps = f.get_fingerprints_mod();
    let gps = g.get_fingerprints_mod();
    ensure_eq!(fps.len(), f.len(), "number of published fingerprints");
    ensure!(fps.iter().all(|x| (*x as u64) < p), "a published fingerprint is not reduced modulo {}", p);
    for (i, k) in keys.iter().enumerate() {
        let want = (data[i] as u64 % p) as u32;
        let want2 = (data2[i] as u64 % p) as u32;
        ensure_eq!(f.retrieve(k, c.label), want, "item {} of {} (modulus {}, label {}, key {:x?})", i, c.n, p, c.label, k);
        ensure_eq!(v.retrieve(k, c.label), want, "item {} of {} in the filter made from a vector", i, c.n);
        ensure_eq!(g.retrieve(k, label2), want2, "item {} of {} under another label", i, c.n);
        let pos = BinaryFuseP32::hash_eval(k, seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
        ensure_eq!(pos.len(), 3, "number of positions");
        ensure!(pos.iter().all(|x| *x < f.len()), "positions {:?} of key {:x?} in a filter of {}", pos, k, f.len());
        ensure!(pos[0] != pos[1] && pos[1] != pos[2] && pos[0] != pos[2], "positions {:?} of key {:x?} coincide", pos, k);
        for (ps, label, want) in [(&fps, c.label, want), (&gps, label2, want2)] {
            let mask = BinaryFuseP32::get_key_fingerprint(k, seed, label) as u128;
            let sum = pos.iter().map(|x| ps[*x] as u128).sum::<u128>() + mask;
            ensure_eq!((sum % p as u128) as u32, want, "item {} of {} from the published fingerprints (modulus {}, label {})", i, c.n, p, label);
        }
    }
    // absent keys give an answer below the modulus, at positions in range
    for _ in 0..8 {
        let mut k = if c.n > 0 && rng.below(2) == 0 { keys[rng.below(c.n)] } else { rnd_key(&mut rng) };
        k[rng.below(4)] ^= 1 << rng.below(64);
        let x = f.retrieve(&k, c.label);
        ensure!((x as u64) < p, "retrieving the absent key {:x?} gives {} for modulus {}", k, x, p);
        let pos = BinaryFuseP32::hash_eval(&k, seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
        ensure!(
            pos.len() == 3 && pos.iter().all(|x| *x < f.len()) && pos[0] != pos[1] && pos[1] != pos[2] && pos[0] != pos[2],
            "positions {:?} of the absent key {:x?} in a filter of {}",
            pos,
            k,
            f.len()
        );
    }
    ctx.tag_if(tries > 1, "first seed failed");
    ctx.tag_if(p.is_power_of_two(), "modulus a power of two");
    ctx.tag_if(p > 1 << 31, "modulus above 2^31");
    ctx.tag_if(c.n == 0, "no keys");
    ctx.tag_n("keys", c.n as u64);
    if c.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p09_property() -> Property {
    Property {
        id: "P09",
        rule: "A case is a set of distinct 256-bit keys of a structured kind, data (random or at the edges of the modulus), a modulus from 256 to 2^32, labels and seeds; every key is retrieved directly, from a filter built from a vector, under a second label with other data, and from the published fingerprints in 128-bit arithmetic. Non-trivial: at least two keys.",
        subs: vec![
            Sub::new("tiny", 100000, 2000000, || store_strat(0, 20), p09).boxed(),
            Sub::new("small", 30000, 600000, || store_strat(0, 400), p09).boxed(),
            Sub::new("medium", 1500, 30000, || store_strat(400, 20_000), p09).boxed(),
            Sub::new("large", 16, 320, || store_strat(100_000, 600_000), p09).workers(4).boxed(),
            Sub::new("crowded", 8000, 160_000, crowd_strat, p09_crowd).boxed(),
            Sub::new("together", 3000, 60_000, || several(store_strat(0, 300)), |c, ctx| together(c, 3, ctx, p09)).workers(3).boxed(),
        ],
    }
}

// ---- the set filters -----------------------------------------------------

pub const KINDS: [&str; 9] =
    ["Xor8", "Xor16", "Xor32", "BinaryFuse8", "BinaryFuse16", "BinaryFuse32", "Fuse8", "Fuse16", "Fuse32"];
pub fn kind_bits(kind: u8) -> u32 {
    [8, 16, 32][kind as usize % 3]
}
type Dyn = Box<dyn Filter<u64> + Send + Sync>;
/// how: 0 from a slice, 1 from a reference to a vector, 2 from a vector.
#[allow(deprecated)]
pub fn build_set(kind: u8, how: u8, keys: &[u64]) -> Result<Dyn, &'static str> {
    let v = keys.to_vec();
    macro_rules! from {
        ($t:ty) => {
            Ok(Box::new(match how % 3 {
                0 => <$t>::from(&v[..]),
                1 => <$t>::from(&v),
                _ => <$t>::from(v),
            }))
        };
    }
    macro_rules! try_from {
        ($t:ty) => {
            Ok(Box::new(match how % 3 {
                0 => <$t>::try_from(&v[..])?,
                1 => <$t>::try_from(&v)?,
                _ => <$t>::try_from(v)?,
            }))
        };
    }
    match kind % 9 {
        0 => from!(Xor8),
        1 => from!(Xor16),
        2 => from!(Xor32),
        3 => try_from!(BinaryFuse8),
        4 => try_from!(BinaryFuse16),
        5 => try_from!(BinaryFuse32),
        6 => try_from!(Fuse8),
        7 => try_from!(Fuse16),
        _ => try_from!(Fuse32),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SetCase {
    pub n: usize,
    pub keys: Key64,
    pub kind: u8,
    pub how: u8,
    pub seed: u64,
}
fn set_cases(lo: usize, hi: usize, kinds: &'static [u8]) -> BoxedStrategy<SetCase> {
    (sized(lo, hi), key64(), proptest::sample::select(kinds), 0u8..3, any::<u64>())
        .prop_map(|(n, keys, kind, how, seed)| SetCase { n, keys, kind, how, seed })
        .boxed()
}
pub fn set_strat(lo: usize, hi: usize) -> BoxedStrategy<SetCase> {
    set_cases(lo, hi, &[0, 1, 2, 3, 4, 5])
}
fn build_named(c: &SetCase, keys: &[u64]) -> Result<Result<Dyn, &'static str>, String> {
    guarded(|| build_set(c.kind, c.how, keys))
        .map_err(|p| format!("building a {} filter of {} keys ({:?}): {}", KINDS[c.kind as usize], c.n, c.keys, p))
}
/// Construction succeeds.
pub fn p10_sets(c: &SetCase, ctx: &mut Ctx) -> Res {
    let keys = keys64(c.n, c.keys, c.seed);
    let f = build_named(c, &keys)?;
    ensure!(f.is_ok(), "no {} filter of {} distinct keys ({:?})", KINDS[c.kind as usize], c.n, c.keys);
    ctx.tag(KINDS[c.kind as usize]);
    ctx.tag_if(c.n == 0, "no keys");
    if c.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
/// No false negatives.
pub fn p11(c: &SetCase, ctx: &mut Ctx) -> Res {
    let keys = keys64(c.n, c.keys, c.seed);
    let f = build_named(c, &keys)?;
    let name = KINDS[c.kind as usize];
    match f {
        Err(_) => {
            ensure!(c.kind >= 6, "no {} filter of {} distinct keys ({:?})", name, c.n, c.keys);
            ctx.tag("Fuse filter refused");
        }
        Ok(f) => {
            for (i, k) in keys.iter().enumerate() {
                ensure!(f.contains(k), "a {} filter of {} keys ({:?}) misses key {} ({:#x})", name, c.n, c.keys, i, k);
            }
            // asking is pure
            let mut rng = Mix::new(c.seed ^ 11);
            for _ in 0..50 {
                let k = rng.next();
                ensure_eq!(f.contains(&k), f.contains(&k), "asking a {} filter twice for {:#x}", name, k);
            }
            for k in keys.iter().take(200) {
                ensure!(f.contains(k), "a {} filter of {} keys forgot key {:#x}", name, c.n, k);
            }
            ctx.tag(name);
            ctx.tag_n("keys", c.n as u64);
            if c.n >= 2 {
                ctx.nt();
            }
        }
    }
    ctx.tag_if(c.n == 0, "no keys");
    Ok(())
}

// ---- the hash proxy ------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProxyCase {
    pub n: usize,
    pub ty: u8,
    pub kind: u8,
    pub fnv: bool,
    pub by_slice: bool,
    pub strs: StrKeys,
    pub keys: Key256,
    pub seed: u64,
}
/// A second hasher.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn proxy_with<T: Hash + Clone + std::fmt::Debug, H: Hasher + Default>(c: &ProxyCase, keys: Vec<T>, ctx: &mut Ctx) -> Res {
    // keys whose hashes collide are no distinct keys for the filter below
    let mut seen = HashSet::new();
    let keys: Vec<T> = keys
        .into_iter()
        .filter(|k| {
            let mut h = H::default();
            k.hash(&mut h);
            seen.insert(h.finish())
        })
        .collect();
    macro_rules! run {
        ($f:ty) => {{
            let f: HashProxy<T, H, $f> = if c.by_slice { HashProxy::from(&keys[..]) } else { HashProxy::from(&keys) };
            for (i, k) in keys.iter().enumerate() {
                ensure!(f.contains(k), "a hash proxy over {} of {} keys misses key {} ({:?})", stringify!($f), keys.len(), i, k);
            }
            // the proxy is the filter of the hashes
            let hashes: Vec<u64> = keys
                .iter()
                .map(|k| {
                    let mut h = H::default();
                    k.hash(&mut h);
                    h.finish()
                })
                .collect();
            let direct = <$f>::from(&hashes);
            ensure_eq!(f.len(), direct.len(), "fingerprints of a hash proxy and of the filter below");
        }};
    }
    match c.kind % 3 {
        0 => run!(Xor8),
        1 => run!(Xor16),
        _ => run!(Xor32),
    }
    ctx.tag_n("keys", keys.len() as u64);
    if keys.len() >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p11_proxy(c: &ProxyCase, ctx: &mut Ctx) -> Res {
    macro_rules! go {
        ($keys:expr) => {
            if c.fnv {
                proxy_with::<_, Fnv>(c, $keys, ctx)
            } else {
                proxy_with::<_, DefaultHasher>(c, $keys, ctx)
            }
        };
    }
    let mut rng = Mix::new(c.seed ^ 0xf);
    match c.ty % 6 {
        0 => go!(string_keys(c.n, c.strs, c.seed)),
        1 => go!(keys256(c.n, c.keys, c.seed)),
        2 => {
            let v: Vec<Vec<u8>> = string_keys(c.n, c.strs, c.seed).into_iter().map(|s| s.into_bytes()).collect();
            go!(v)
        }
        3 => {
            let v: Vec<(u32, String)> =
                string_keys(c.n, c.strs, c.seed).into_iter().map(|s| (rng.next() as u32, s)).collect();
            go!(v)
        }
        4 => {
            let v: Vec<u64> = keys64(c.n, Key64::Sequential(c.seed), c.seed);
            go!(v)
        }
        _ => {
            let mut v: Vec<Option<i128>> = keys256(c.n, c.keys, c.seed)
                .iter()
                .map(|k| Some((k[0] as i128) << 64 | k[1] as i128))
                .collect();
            v.push(None);
            v.sort();
            v.dedup();
            go!(v)
        }
    }
}
fn proxy_strat(lo: usize, hi: usize) -> BoxedStrategy<ProxyCase> {
    (sized(lo, hi), 0u8..6, 0u8..3, any::<bool>(), any::<bool>(), str_keys(), key256(), any::<u64>())
        .prop_map(|(n, ty, kind, fnv, by_slice, strs, keys, seed)| ProxyCase { n, ty, kind, fnv, by_slice, strs, keys, seed })
        .boxed()
}
pub fn p11_property() -> Property {
    Property {
        id: "P11",
        rule: "A case is a filter kind, a way to build it (slice, reference, vector) and a set of distinct 64-bit keys (random, sequential, shifted, clustered, extreme, hashing to zero, multiples), or a hash proxy over six key types and two hashers; every key has to be contained. Run over the filter crate with and without randomised padding. Non-trivial: a filter of at least two keys was built.",
        subs: vec![
            Sub::new("tiny", 100000, 2000000, || set_cases(0, 24, &[0, 1, 2, 3, 4, 5]), p11).boxed(),
            Sub::new("small", 40000, 800000, || set_cases(0, 600, &[0, 1, 2, 3, 4, 5]), p11).boxed(),
            Sub::new("medium", 2000, 40000, || set_cases(600, 50_000, &[0, 1, 2, 3, 4, 5]), p11).boxed(),
            Sub::new("fuse small", 4000, 80000, || set_cases(0, 600, &[6, 7, 8]), p11).boxed(),
            Sub::new("fuse medium", 24, 480, || set_cases(600, 150_000, &[6, 7, 8]), p11).boxed(),
            Sub::new("large", 40, 800, || set_cases(150_000, 1_100_000, &[0, 1, 2, 3, 4, 5, 6, 7, 8]), p11).workers(6).boxed(),
            Sub::new("proxy", 30000, 600000, || proxy_strat(0, 500), p11_proxy).boxed(),
            Sub::new("together", 3000, 60000, || several(set_cases(0, 600, &[0, 1, 2, 3, 4, 5])), |c, ctx| together(c, 3, ctx, p11)).workers(3).boxed(),
            Sub::new("proxy together", 2000, 40000, || several(proxy_strat(0, 300)), |c, ctx| together(c, 3, ctx, p11_proxy)).workers(3).boxed(),
            Sub::new("proxy large", 300, 6000, || proxy_strat(500, 60_000), p11_proxy).boxed(),
        ],
    }
}

// ---- P12 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RateCase {
    pub set: SetCase,
    pub probe: Key64,
    pub near: bool,
    pub probes: usize,
}
fn rate_strat(lo: usize, hi: usize, probes: usize, kinds: &'static [u8]) -> BoxedStrategy<RateCase> {
    (set_cases(lo, hi, kinds), uncrafted64(), proptest::bool::weighted(0.3), Just(probes))
        .prop_map(|(set, probe, near, probes)| RateCase { set, probe, near, probes })
        .boxed()
}
/// More false positives than a rate of 2^-bits explains?
fn rate_limit(bits: u32, probes: u64) -> f64 {
    let mean = probes as f64 / 2f64.powi(bits as i32);
    mean + 8.0 * mean.sqrt() + 5.0
}
pub fn p12_rate(c: &RateCase, ctx: &mut Ctx) -> Res {
    let keys = keys64(c.set.n, c.set.keys, c.set.seed);
    let name = KINDS[c.set.kind as usize];
    let f = match build_named(&c.set, &keys)? {
        Ok(f) => f,
        Err(_) => {
            ensure!(c.set.kind >= 6, "no {} filter of {} distinct keys", name, c.set.n);
            return Ok(());
        }
    };
    let stored: HashSet<u64> = keys.iter().copied().collect();
    let mut rng = Mix::new(c.set.seed ^ 0x12);
    let (mut asked, mut fp) = (0u64, 0u64);
    let mut ask = |k: u64| {
        // the one key whose hash is zero under the seed that every
        // construction starts with is made up to match empty slots
        asked += 1;
        if f.contains(&k) {
            if stored.contains(&k) || k == FIRST_SEED.wrapping_neg() {
                asked -= 1;
            } else {
                fp += 1;
            }
        }
    };
    // false positives are rare among 32 bits
    let probes = if c.set.kind % 3 == 2 { 50 * c.probes } else { c.probes };
    if c.near && !keys.is_empty() {
        // distinct near-copies of stored keys
        let mut seen = HashSet::new();
        for _ in 0..c.probes {
            let mut k = keys[rng.below(keys.len())];
            for _ in 0..1 + rng.below(3) {
                k ^= 1 << rng.below(64);
            }
            if rng.below(4) == 0 {
                k = k.rotate_left(rng.below(64) as u32);
            }
            if seen.insert(k) {
                ask(k);
            }
        }
    } else {
        match c.probe {
            Key64::Random => (0..probes).for_each(|_| ask(rng.next())),
            Key64::Sequential(s) => (0..probes as u64).for_each(|i| ask(s.wrapping_add(i))),
            k => keys64(c.probes / 8, k, c.set.seed ^ 0x77).into_iter().for_each(|k| ask(k)),
        }
    }
    let bits = kind_bits(c.set.kind);
    ensure!(
        (fp as f64) <= rate_limit(bits, asked),
        "a {} filter of {} keys ({:?}) answers 'contained' for {} of {} foreign keys ({}, expected {:.2})",
        name,
        c.set.n,
        c.set.keys,
        fp,
        asked,
        if c.near { "near-copies".to_string() } else { format!("{:?}", c.probe) },
        asked as f64 / 2f64.powi(bits as i32)
    );
    // Summed over the run are only foreign keys drawn anew in every case: fixed
    // ones would meet the same filter (or its empty slots) again and again.
    let fresh = |k: Key64| matches!(k, Key64::Random | Key64::Multiples(_) | Key64::Clustered);
    if if c.near { c.set.n >= 4 && fresh(c.set.keys) } else { fresh(c.probe) } {
        ctx.count(name, &[asked, fp]);
        ctx.count(&format!("{} {}", name, if c.near { "near-copies" } else { "structured" }), &[asked, fp]);
    }
    ctx.tag_n("foreign keys asked for", asked);
    ctx.tag_n("false positives", fp);
    if c.set.n >= 2 && asked >= 1000 {
        ctx.nt();
    }
    Ok(())
}
fn p12_finish(st: &BTreeMap<String, Vec<u64>>) -> Res {
    for (n, v) in st {
        if v.len() == 2 {
            let kind = KINDS.iter().position(|k| Some(*k) == n.split(' ').next()).unwrap_or(2);
            ensure!(
                v[1] as f64 <= rate_limit(kind_bits(kind as u8), v[0]),
                "{}: {} of {} foreign keys are 'contained', expected {:.1}",
                n,
                v[1],
                v[0],
                v[0] as f64 / 2f64.powi(kind_bits(kind as u8) as i32)
            );
        }
    }
    Ok(())
}
/// At a million keys: the documented number of bits per key.
fn documented(kind: u8, how: u8, seed: u64) -> Res {
    let n = 1_000_000;
    let keys = keys64(n, Key64::Random, seed);
    let c = SetCase { n, keys: Key64::Random, kind, how, seed };
    let name = KINDS[kind as usize];
    let f = e2s(&format!("building a {} filter of a million keys", name), build_named(&c, &keys)?)?;
    let limit = [10.0, 20.0, 40.0, 9.1, 18.2, 36.4, 9.101, 18.202, 36.404][kind as usize];
    let bpe = f.len() as f64 * kind_bits(kind) as f64 / n as f64;
    ensure!(bpe < limit, "a {} filter takes {} bits per key, documented are {}", name, bpe, limit);
    for k in keys.iter() {
        ensure!(f.contains(k), "a {} filter of a million keys misses {:#x}", name, k);
    }
    let stored: HashSet<u64> = keys.iter().copied().collect();
    let mut rng = Mix::new(seed ^ 0x12);
    let (mut asked, mut fp) = (0, 0);
    for _ in 0..2_000_000 {
        let k = rng.next();
        if !stored.contains(&k) {
            asked += 1;
            fp += f.contains(&k) as u64;
        }
    }
    ensure!((fp as f64) <= rate_limit(kind_bits(kind), asked), "a {} filter of a million keys contains {} of {} foreign keys", name, fp, asked);
    Ok(())
}
pub fn p12_documented(seed: &u64, ctx: &mut Ctx) -> Res {
    let hs: Vec<_> = (0..9u8)
        .map(|kind| {
            let seed = *seed ^ kind as u64;
            std::thread::spawn(move || {
                quiet_panics();
                getrandom::det::seed(seed);
                guarded(|| documented(kind, (seed % 3) as u8, seed)).unwrap_or_else(|p| Err(format!("{} filter: {}", KINDS[kind as usize], p)))
            })
        })
        .collect();
    for h in hs {
        h.join().map_err(|_| "thread died".to_string())??;
    }
    ctx.tag_n("filters of a million keys", 9);
    ctx.nt();
    Ok(())
}
/// Fingerprints for n keys at most.
pub fn size_limit(kind: u8, n: usize) -> f64 {
    let nf = n as f64;
    match kind / 3 {
        0 => 1.23 * nf + 32.0,
        2 => nf / 0.879,
        _ => binary_fuse_limit(n),
    }
}
pub fn binary_fuse_limit(n: usize) -> f64 {
    let nf = n as f64;
    let f = if n >= 100_000 {
        1.3
    } else if n >= 1000 {
        2.0
    } else {
        6.0
    };
    f * nf + 64.0
}
pub fn p12_sizes(c: &SetCase, ctx: &mut Ctx) -> Res {
    let keys = keys64(c.n, c.keys, c.seed);
    if let Ok(f) = build_named(c, &keys)? {
        let limit = size_limit(c.kind, c.n);
        ensure!(f.len() as f64 <= limit, "{} fingerprints in a {} filter of {} keys, more than {}", f.len(), KINDS[c.kind as usize], c.n, limit);
        if c.n >= 2 {
            ctx.nt();
        }
    }
    let mut rng = Mix::new(c.seed);
    let k256 = keys256(c.n, Key256::Random, c.seed);
    let data = vec![0; c.n];
    for _ in 0..STORE_TRIES {
        if let Ok(f) = BinaryFuseP32::from_slice(seed32(&mut rng), &k256, &data, 0, 1024) {
            let limit = binary_fuse_limit(c.n);
            ensure!(f.len() as f64 <= limit, "{} fingerprints in a storage filter of {} keys, more than {}", f.len(), c.n, limit);
            break;
        }
    }
    Ok(())
}
const ALL: [u8; 9] = [0, 1, 2, 3, 4, 5, 6, 7, 8];
pub fn p12_property() -> Property {
    Property {
        id: "P12",
        rule: "A case is a filter of a structured key set and foreign keys of a structured kind (random, sequential, near-copies by bit flips and rotations, ...); false positives per case and summed per kind may exceed the nominal rate by eight standard deviations plus five at most; sizes at a million keys against the documented bits per key and at all sizes against the formula's bound. Non-trivial: at least two stored keys and 1000 foreign ones (sizes: two keys).",
        subs: vec![
            Sub::new("rate small", 8000, 160000, || rate_strat(0, 600, 40_000, &[0, 1, 2, 3, 4, 5]), p12_rate).finish(p12_finish).boxed(),
            Sub::new("rate medium", 800, 16000, || rate_strat(600, 40_000, 400_000, &[0, 1, 2, 3, 4, 5]), p12_rate).finish(p12_finish).boxed(),
            Sub::new("rate large", 20, 400, || rate_strat(150_000, 1_000_000, 4_000_000, &ALL), p12_rate).finish(p12_finish).workers(6).boxed(),
            Sub::new("documented size", 1, 20, || any::<u64>().no_shrink().boxed(), p12_documented).workers(1).boxed(),
            Sub::new("sizes", 25000, 500000, || set_cases(0, 3_000, &[0, 1, 2, 3, 4, 5]), p12_sizes).boxed(),
            Sub::new("sizes large", 120, 2400, || set_cases(3_000, 300_000, &[0, 1, 2, 3, 4, 5]), p12_sizes).workers(6).boxed(),
        ],
    }
}

// ---- P20 -----------------------------------------------------------------

/// Chi-square test of a count of hits against a probability, and of equal cells.
pub fn judge_cells(name: &str, cells: &[u64]) -> Res {
    let n: u64 = cells.iter().sum();
    let k = cells.len() as f64;
    if (n as f64) < 60.0 * k {
        return Ok(());
    }
    let e = n as f64 / k;
    let x: f64 = cells.iter().map(|c| (*c as f64 - e) * (*c as f64 - e) / e).sum();
    // Wilson-Hilferty at 7.6 standard deviations, and some more
    let df = k - 1.0;
    let a = 2.0 / (9.0 * df);
    let limit = df * (1.0 - a + 7.6 * a.sqrt()).powi(3) + 10.0;
    ensure!(x < limit, "{}: counts {:?} are not uniform (chi-square {:.1}, limit {:.1})", name, cells, x, limit);
    Ok(())
}
/// Counts of the values of each four bits of the entries.
pub fn nibbles(entries: impl Iterator<Item = u32> + Clone, bits: u32) -> Vec<(u32, Vec<u64>)> {
    (0..bits / 4)
        .map(|i| {
            let mut cells = vec![0u64; 16];
            for x in entries.clone() {
                cells[(x >> (4 * i)) as usize & 15] += 1;
            }
            (4 * i, cells)
        })
        .collect()
}
/// The same for each eight bits, to be summed over a run.
pub fn count_bytes(ctx: &mut Ctx, name: &str, entries: impl Iterator<Item = u32> + Clone, bits: u32) {
    for at in (0..bits / 8).map(|i| 8 * i) {
        let mut cells = vec![0u64; 256];
        for x in entries.clone() {
            cells[(x >> at) as usize & 255] += 1;
        }
        ctx.count(&format!("{}, bytes from {}", name, at), &cells);
    }
}
/// No value comes twice more often than by chance, which a pool of few values,
/// or one filling used again, would show.
pub fn judge_pairs(what: &str, ctx: &mut Ctx, group: &str, entries: &[u32], bits: u32) -> Res {
    if bits < 20 {
        return Ok(());
    }
    let mut v = entries.to_vec();
    v.sort_unstable();
    let (mut pairs, mut run) = (0u64, 0u64);
    for w in v.windows(2) {
        run = if w[0] == w[1] { run + 1 } else { 0 };
        pairs += run;
    }
    let n = v.len() as u64;
    let all = n * n.saturating_sub(1) / 2;
    ensure!(
        pairs as f64 <= rate_limit(bits, all),
        "{} of {} are pairs of equal values among {}, expected {:.1}",
        pairs,
        all,
        what,
        all as f64 / 2f64.powi(bits as i32)
    );
    ctx.count(&format!("pairs of {} bits: {}", bits, group), &[all, pairs]);
    Ok(())
}
/// At least as many entries differ between two fillings as are certainly unused.
pub fn differing(what: &str, a: &[u32], b: &[u32], unused: usize, bits: u32) -> Res {
    ensure_eq!(a.len(), b.len(), "entries of two builds of {}", what);
    let d = a.iter().zip(b).filter(|(x, y)| x != y).count() as f64;
    let same = 2f64.powi(-(bits as i32));
    let want = unused as f64 * (1.0 - same);
    let slack = 8.0 * (unused as f64 * same).sqrt() + if bits > 16 { 0.0 } else { 5.0 };
    ensure!(
        d >= (want - slack).floor(),
        "two builds of {} differ in {} of {} entries only, though {} of them are unused",
        what,
        d,
        a.len(),
        unused
    );
    Ok(())
}
/// The entries of a Fuse or Binary Fuse filter, and the seed it serialises.
#[allow(deprecated)]
fn build_open(kind: u8, how: u8, keys: &[u64]) -> Option<(Vec<u32>, Dyn, Option<u64>)> {
    let v = keys.to_vec();
    macro_rules! go {
        ($t:ty) => {{
            let f = match how % 3 {
                0 => <$t>::try_from(&v[..]).ok()?,
                1 => <$t>::try_from(&v).ok()?,
                _ => <$t>::try_from(v).ok()?,
            };
            let seed = if keys.len() <= 2000 {
                serde_json::to_value(&f).ok().and_then(|j| j.get("seed").and_then(|s| s.as_u64()))
            } else {
                None
            };
            (f.fingerprints.iter().map(|x| *x as u32).collect(), Box::new(f) as Dyn, seed)
        }};
    }
    Some(match kind % 9 {
        3 => go!(BinaryFuse8),
        4 => go!(BinaryFuse16),
        5 => go!(BinaryFuse32),
        6 => go!(Fuse8),
        7 => go!(Fuse16),
        _ => go!(Fuse32),
    })
}
/// What is left of a set filter's entries by its keys is filled at random.
pub fn p20_set(c: &SetCase, ctx: &mut Ctx) -> Res {
    let keys = keys64(c.n, c.keys, c.seed);
    let name = KINDS[c.kind as usize];
    let bits = kind_bits(c.kind);
    let built = guarded(|| (build_open(c.kind, c.how, &keys), build_open(c.kind, c.how + 1, &keys)));
    let (a, b) = match built {
        Ok((Some(a), Some(b))) => (a, b),
        Ok((None, None)) if c.kind >= 6 => return Ok(()),
        other => return Err(format!("building {} twice over {} keys ({:?}): {}", name, c.n, c.keys, other.err().unwrap_or_default())),
    };
    let what = format!("a {} filter of {} keys ({:?})", name, c.n, c.keys);
    let len = a.0.len();
    ensure_eq!(len, a.1.len(), "entries of {}", what);
    let unused = len.saturating_sub(c.n);
    differing(&what, &a.0, &b.0, unused, bits)?;
    // no value is more frequent than the others
    for f in [&a, &b] {
        for (at, cells) in nibbles(f.0.iter().copied(), bits) {
            let title = format!("{}, bits from {}", what, at);
            judge_cells(&title, &cells)?;
            ctx.count(&format!("{} bits from {}", name, at), &cells);
        }
        count_bytes(ctx, name, f.0.iter().copied(), bits);
        judge_pairs(&format!("the entries of {}", what), ctx, name, &f.0, bits)?;
        let zeros = f.0.iter().filter(|x| **x == 0).count() as u64;
        ensure!(
            zeros as f64 <= rate_limit(bits, len as u64),
            "{} of the {} entries of {} are zero, expected {:.2}",
            zeros,
            len,
            what,
            len as f64 / 2f64.powi(bits as i32)
        );
        ctx.count(&format!("zero {}", name), &[len as u64, zeros]);
    }
    // so foreign keys whose own fingerprint is zero fare like any other
    // (small filters have too few places to tell: one unlucky triple would count
    // again and again)
    if let (true, Some(seed)) = (c.n >= 300, a.2) {
        let stored: HashSet<u64> = keys.iter().copied().collect();
        let mut rng = Mix::new(c.seed ^ 0x20);
        let (mut asked, mut fp) = (0u64, 0u64);
        let low = if bits == 32 { u32::MAX } else { (1u32 << bits) - 1 };
        for _ in 0..1000 {
            let h = rng.next();
            // the lower half as the upper half has it
            let h = h & !(low as u64) | (h >> 32) & low as u64;
            let k = key_of_hash_from(h, seed);
            if !stored.contains(&k) {
                asked += 1;
                fp += a.1.contains(&k) as u64;
            }
        }
        ensure!(
            fp as f64 <= rate_limit(bits, asked),
            "{} answers 'contained' for {} of {} foreign keys whose fingerprint is zero",
            what,
            fp,
            asked
        );
        ctx.tag_n("foreign keys of fingerprint zero", asked);
        ctx.count(&format!("foreign {}", name), &[asked, fp]);
    }
    ctx.tag(name);
    ctx.tag_n("entries certainly unused", unused as u64);
    if unused >= 4 {
        ctx.nt();
    }
    Ok(())
}
/// Likewise a storage filter, whose unused entries are known.
pub fn p20_storage(c: &StoreCase, ctx: &mut Ctx) -> Res {
    let keys = keys256(c.n, c.keys, c.seed ^ 9);
    let mut rng = Mix::new(c.seed ^ 0x2020);
    let e = 8 + (c.modulus % 24) as u32;
    let p = 1u64 << e;
    let fixed = rng.next() as u32;
    let data: Vec<u32> = (0..c.n).map(|_| if c.edge_data { 0 } else { fixed }).collect();
    let mut built = None;
    for _ in 0..STORE_TRIES {
        let seed = seed32(&mut rng);
        if let Ok(f) = BinaryFuseP32::from_slice(seed, &keys, &data, c.label, p) {
            built = Some((seed, f));
            break;
        }
    }
    let (seed, f) = built.ok_or_else(|| format!("no filter over {} keys with {} seeds", c.n, STORE_TRIES))?;
    let g = e2s("from_vec with a seed that from_slice accepts", BinaryFuseP32::from_vec(seed, keys.clone(), &data, c.label, p))?;
    let (a, b) = (f.get_fingerprints_mod(), g.get_fingerprints_mod());
    let what = format!("a storage filter of {} equal items (modulus 2^{})", c.n, e);
    let mut used = vec![false; a.len()];
    for k in &keys {
        for x in BinaryFuseP32::hash_eval(k, seed, f.segment_length, f.segment_length_mask, f.segment_count_length) {
            used[x] = true;
        }
    }
    let free = |v: &[u32]| -> Vec<u32> { v.iter().zip(&used).filter(|(_, u)| !**u).map(|(x, _)| *x).collect() };
    let (fa, fb) = (free(&a), free(&b));
    differing(&what, &a, &b, a.len().saturating_sub(c.n), e)?;
    differing(&format!("the untouched part of {}", what), &fa, &fb, fa.len(), e)?;
    for (part, v) in [("entries", &a), ("untouched entries", &fa)] {
        for (at, cells) in nibbles(v.iter().copied(), e) {
            judge_cells(&format!("{} of {}, bits from {}", part, what, at), &cells)?;
            ctx.count(&format!("{}, bits from {}", part, at), &cells);
        }
        count_bytes(ctx, &format!("{}, modulus 2^{}", part, e), v.iter().copied(), e);
        judge_pairs(&format!("the {} of {}", part, what), ctx, part, v, e)?;
        let zeros = v.iter().filter(|x| **x == 0).count() as u64;
        ensure!(zeros as f64 <= rate_limit(e, v.len() as u64), "{} of {} {} of {} are zero", zeros, v.len(), part, what);
    }
    ctx.tag_n("untouched entries", fa.len() as u64);
    if fa.len() >= 4 {
        ctx.nt();
    }
    Ok(())
}
pub fn p20_finish(st: &BTreeMap<String, Vec<u64>>) -> Res {
    for (n, v) in st {
        if v.len() == 16 || v.len() == 256 {
            judge_cells(n, v)?;
        } else if let Some(rest) = n.strip_prefix("pairs of ") {
            let bits = rest.split(' ').next().and_then(|b| b.parse().ok()).unwrap_or(20);
            ensure!(v[1] as f64 <= rate_limit(bits, v[0]), "{}: {} of {} are equal", n, v[1], v[0]);
        } else if let Some(kind) = n.strip_prefix("zero ").and_then(|k| KINDS.iter().position(|x| *x == k)) {
            let bits = kind_bits(kind as u8);
            ensure!(v[1] as f64 <= rate_limit(bits, v[0]), "{} of {} entries of {} filters are zero", v[1], v[0], KINDS[kind]);
        } else if let Some(kind) = n.strip_prefix("foreign ").and_then(|k| KINDS.iter().position(|x| *x == k)) {
            let bits = kind_bits(kind as u8);
            ensure!(
                v[1] as f64 <= rate_limit(bits, v[0]),
                "{} filters contain {} of {} foreign keys whose fingerprint is zero",
                KINDS[kind],
                v[1],
                v[0]
            );
        }
    }
    Ok(())
}
fn p20_sets(lo: usize, hi: usize, kinds: &'static [u8]) -> BoxedStrategy<SetCase> {
    (set_cases(lo, hi, kinds), uncrafted64()).prop_map(|(c, keys)| SetCase { keys, ..c }).boxed()
}
pub fn p20_property() -> Property {
    Property {
        id: "P20",
        rule: "A case is a Fuse, Binary Fuse or storage filter (or a keyword server) of structured keys, built twice; the entries' values in groups of four bits are uniform (chi-square per case and summed, alarm below 1e-13), zero is no more frequent than other values, the builds differ wherever no key decides the entry, and foreign keys made up to have the fingerprint zero are reported at the nominal rate. Non-trivial: at least four entries that no key decides.",
        subs: vec![
            Sub::new("set small", 60000, 1200000, || p20_sets(0, 600, &[3, 4, 5]), p20_set).finish(p20_finish).boxed(),
            Sub::new("set medium", 600, 12000, || p20_sets(600, 40_000, &[3, 4, 5]), p20_set).finish(p20_finish).boxed(),
            Sub::new("set large", 24, 480, || p20_sets(100_000, 700_000, &[3, 4, 5, 6, 7, 8]), p20_set).finish(p20_finish).workers(6).boxed(),
            Sub::new("storage small", 60000, 1200000, || store_strat(0, 600), p20_storage).finish(p20_finish).boxed(),
            Sub::new("storage medium", 400, 8000, || store_strat(600, 40_000), p20_storage).finish(p20_finish).boxed(),
            Sub::new("storage large", 8, 160, || store_strat(100_000, 600_000), p20_storage).finish(p20_finish).workers(4).boxed(),
        ],
    }
}
