//! P13 (serialisation), P14 (conversions), P15 (files), P16 (malformed input).
use crate::core::*;
use crate::filters::{Fnv, KINDS};
use crate::gen::*;
use crate::pir::*;
use crate::query::transfer;
use crate::server::{load_strat, make_query, LoadCase};
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, IndexParams, KVDatabase, KVParams, KeyValue};
use keyword_pir_lwe::errors::ErrorQueryParamsReused;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::path::{Path, PathBuf};
use xorf::Filter;

// ---- P13 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireCase {
    pub idx: IdxCase,
    pub kv: KvCase,
    /// the format of every transfer, in turn
    pub formats: Vec<u8>,
}
fn wire_strat(n: (usize, usize), bits: (usize, usize), dim: (usize, usize)) -> BoxedStrategy<WireCase> {
    (idx_strat(n, bits, dim, 3), kv_strat(n, bits, dim, 3), proptest::collection::vec(0u8..4, 1..20))
        .prop_map(|(idx, kv, formats)| WireCase { idx, kv, formats })
        .boxed()
}
struct Wire<'a> {
    formats: &'a [u8],
    i: usize,
    by: [u64; 4],
}
impl<'a> Wire<'a> {
    /// Sends an object through the next format. What arrives serialises the
    /// same way again, in both kinds of format.
    fn send<T: Serialize + DeserializeOwned>(&mut self, what: &str, t: &T) -> Result<T, String> {
        let f = self.formats[self.i % self.formats.len()];
        self.i += 1;
        self.by[f as usize % 4] += 1;
        let u = transfer(t, f).map_err(|e| format!("sending {} in format {}: {}", what, f, e))?;
        same(what, t, &u)?;
        Ok(u)
    }
}
fn same<T: Serialize>(what: &str, t: &T, u: &T) -> Res {
    let (a, b) = (serde_json::to_value(t).unwrap(), serde_json::to_value(u).unwrap());
    if a != b {
        return Err(format!("{} differs after a transfer: {} != {}", what, short(&a.to_string()), short(&b.to_string())));
    }
    ensure!(bincode::serialize(t).unwrap() == bincode::serialize(u).unwrap(), "{} differs after a transfer (binary)", what);
    Ok(())
}
fn same_params<P: BaseParams>(what: &str, a: &P, b: &P) -> Res {
    ensure_eq!(a.get_total_records(), b.get_total_records(), "{}: rows", what);
    ensure_eq!(a.get_dim(), b.get_dim(), "{}: dimension", what);
    ensure_eq!(a.get_elem_size(), b.get_elem_size(), "{}: element size", what);
    ensure_eq!(a.get_plaintext_bits(), b.get_plaintext_bits(), "{}: plaintext bits", what);
    ensure_eq!(a.get_public_seed(), b.get_public_seed(), "{}: seed", what);
    ensure!(a.get_rhs() == b.get_rhs(), "{}: right-hand side differs", what);
    Ok(())
}
fn same_db<D: DatabaseMatrix>(what: &str, a: &D, b: &D) -> Res {
    ensure_eq!(a.get_matrix_height(), b.get_matrix_height(), "{}: height", what);
    ensure_eq!(a.get_elem_size(), b.get_elem_size(), "{}: element size", what);
    ensure_eq!(a.get_plaintext_bits(), b.get_plaintext_bits(), "{}: plaintext bits", what);
    ensure_eq!(a.get_row_width_self(), b.get_row_width_self(), "{}: row width", what);
    for i in 0..a.get_row_width_self() {
        ensure_eq!(a.get_row(i), b.get_row(i), "{}: column {}", what, i);
    }
    for i in 0..a.get_matrix_height() {
        ensure_eq!(a.get_db_entry(i), b.get_db_entry(i), "{}: entry {}", what, i);
    }
    Ok(())
}
pub fn p13(c: &WireCase, ctx: &mut Ctx) -> Res {
    let mut w = Wire { formats: &c.formats, i: 0, by: [0; 4] };
    // index
    {
        let s = setup_idx(&c.idx, 2_000_000)?;
        let shard = w.send("an index server", &s.shard)?;
        let db = w.send("an index database", s.shard.get_db())?;
        same_db("an index database", s.shard.get_db(), &db)?;
        same_db("an index server's database", s.shard.get_db(), shard.get_db())?;
        let bp = w.send("index parameters", s.shard.get_base_params())?;
        same_params("index parameters", s.shard.get_base_params(), &bp)?;
        same_params("an index server's parameters", s.shard.get_base_params(), shard.get_base_params())?;
        let cp0 = CommonParams::from(s.shard.get_base_params());
        let cp1 = CommonParams::from(&bp);
        ensure!(cp0.as_matrix() == cp1.as_matrix(), "restored parameters give another common matrix");
        let cp = w.send("the common matrix", &cp1)?;
        ensure!(cp0.as_matrix() == cp.as_matrix(), "the common matrix changed on the way");
        for row in pick_rows(c.idx.m, c.idx.queries, c.idx.seed) {
            let mut orig = e2s("generate_index_query_params", generate_index_query_params(&cp, &bp))?;
            let mut qp = w.send("unused index query parameters", &orig)?;
            ensure!(!qp.used, "unused query parameters arrived as used");
            let q0 = e2s("generate_query", orig.generate_query(row))?;
            let q1 = e2s("generate_query of restored parameters", qp.generate_query(row))?;
            ensure_eq!(q0.as_slice(), q1.as_slice(), "query for row {} by original and restored parameters", row);
            let q = w.send("a query", &q1)?;
            ensure_eq!(q.as_slice(), q1.as_slice(), "query for row {} before and after transfer", row);
            let mut qp = w.send("used index query parameters", &qp)?;
            refused(qp.generate_query(row))?;
            let r0 = e2s("respond", s.shard.respond(&q0))?;
            let r1 = e2s("respond of the restored server", shard.respond(&q))?;
            ensure_eq!(r0, r1, "answer of original and restored server for row {}", row);
            let resp0 = decode(r1)?;
            let resp = w.send("a response", &resp0)?;
            ensure_eq!(resp.as_slice(), resp0.as_slice(), "response for row {} before and after transfer", row);
            check_index_answer(&qp, &resp, &s.elems[row], c.idx.bits, s.pb, row)?;
            check_index_answer(&orig, &resp, &s.elems[row], c.idx.bits, s.pb, row)?;
        }
    }
    // keyword
    {
        let s = setup_kv(&c.kv, 2_000_000)?;
        let shard = w.send("a keyword server", &s.shard)?;
        let db = w.send("a keyword database", s.shard.get_db())?;
        same_db("a keyword database", s.shard.get_db(), &db)?;
        same_db("a keyword server's database", s.shard.get_db(), shard.get_db())?;
        let bp = w.send("keyword parameters", s.shard.get_base_params())?;
        same_params("keyword parameters", s.shard.get_base_params(), &bp)?;
        same_params("a keyword server's parameters", s.shard.get_base_params(), shard.get_base_params())?;
        let fp = w.send("filter parameters", &bp.get_filter_params())?;
        let mut rng = Mix::new(c.kv.seed ^ 13);
        for i in 0..c.kv.n.min(50) + 10 {
            let k = if i < c.kv.n.min(50) { s.keys[i] } else { rnd_key(&mut rng) };
            let f0 = s.shard.get_db().get_filter_params();
            let pos = f0.get_hash_evals(&k);
            for (what, f) in [("sent", &fp), ("of a sent database", db.get_filter_params()), ("of a sent server", shard.get_db().get_filter_params()), ("of a sent server's parameters", &shard.get_base_params().get_filter_params())] {
                ensure_eq!(pos, f.get_hash_evals(&k), "positions of key {:x?}, original filter parameters and those {}", k, what);
                let (x, l) = (rng.next() as u32, rng.next() >> rng.below(64));
                ensure_eq!(f0.unmask_value(x, &k, l), f.unmask_value(x, &k, l), "unmasking for key {:x?}, original filter parameters and those {}", k, what);
            }
        }
        let cp0 = CommonParams::from(s.shard.get_base_params());
        let cp = w.send("the common matrix", &CommonParams::from(&bp))?;
        ensure!(cp0.as_matrix() == cp.as_matrix(), "the common matrix of a keyword server changed on the way");
        for i in pick_rows(c.kv.n, c.kv.queries, c.kv.seed) {
            let key = &s.keys[i];
            let mut orig = e2s("generate_kv_query_params", generate_kv_query_params(&cp, &bp))?;
            let mut qp = w.send("unused keyword query parameters", &orig)?;
            ensure!(!qp.used, "unused query parameters arrived as used");
            let q0 = e2s("generate_query", orig.generate_query(key))?;
            let q1 = e2s("generate_query of restored parameters", qp.generate_query(key))?;
            ensure_eq!(q0.as_slice(), q1.as_slice(), "query for pair {} by original and restored parameters", i);
            let q = w.send("a query", &q1)?;
            ensure_eq!(q.as_slice(), q1.as_slice(), "query for pair {} before and after transfer", i);
            let mut qp = w.send("used keyword query parameters", &qp)?;
            refused(qp.generate_query(key))?;
            let r0 = e2s("respond", s.shard.respond(&q0))?;
            let r1 = e2s("respond of the restored server", shard.respond(&q))?;
            ensure_eq!(r0, r1, "answer of original and restored server for pair {}", i);
            let resp = w.send("a response", &decode(r1)?)?;
            check_kv_answer(&qp, &resp, key, &s.elems[i], c.kv.bits, s.pb, &format!("pair {}", i))?;
            check_kv_answer(&orig, &resp, key, &s.elems[i], c.kv.bits, s.pb, &format!("pair {}", i))?;
            // the pair itself
            let kv = KeyValue { key: *key, value: chunk_row(&s.elems[i], c.kv.bits, s.pb) };
            let kv2 = w.send("a key-value pair", &kv)?;
            ensure!(kv.key == kv2.key && kv.value == kv2.value, "a key-value pair changed on the way");
            if let Some(strs) = &s.strs {
                let text = json!({"key": strs[i], "value": b64(&s.elems[i])});
                let e: EncodedKV = e2s("an encoded pair", serde_json::from_value(text.clone()))?;
                let e2 = w.send("an encoded pair", &e)?;
                ensure_eq!(serde_json::to_value(&e2).unwrap(), text, "an encoded pair after transfer");
            }
        }
    }
    for (i, n) in w.by.iter().enumerate() {
        ctx.tag_n(["bincode", "JSON text", "JSON value", "JSON stream"][i], *n);
    }
    if w.by[0] > 0 && w.by[1] + w.by[2] + w.by[3] > 0 {
        ctx.nt();
    }
    Ok(())
}
fn refused<T, E: std::borrow::Borrow<dyn std::error::Error>>(r: Result<T, E>) -> Res {
    match r {
        Ok(_) => Err("used query parameters produced another query after a transfer".into()),
        Err(e) => {
            ensure!(
                e.borrow().downcast_ref::<ErrorQueryParamsReused>().is_some(),
                "used query parameters were refused with another error after a transfer: {}",
                e.borrow()
            );
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireFilter {
    pub n: usize,
    pub keys: Key64,
    pub kind: u8,
    pub format: u8,
    pub seed: u64,
}
fn filter_strat(lo: usize, hi: usize, kinds: &'static [u8]) -> BoxedStrategy<WireFilter> {
    (sized(lo, hi), key64(), proptest::sample::select(kinds), 0u8..4, any::<u64>())
        .prop_map(|(n, keys, kind, format, seed)| WireFilter { n, keys, kind, format, seed })
        .boxed()
}
fn sent_filter<F: Filter<u64> + Serialize + DeserializeOwned>(c: &WireFilter, f: F, keys: &[u64], ctx: &mut Ctx) -> Res {
    let name = KINDS.get(c.kind as usize).copied().unwrap_or("filter");
    let g = transfer(&f, c.format).map_err(|e| format!("sending a {} filter: {}", name, e))?;
    same(&format!("a {} filter", name), &f, &g)?;
    ensure_eq!(f.len(), g.len(), "length of a {} filter before and after transfer", name);
    for k in keys {
        ensure!(g.contains(k), "a {} filter of {} keys forgot key {:#x} in transfer", name, keys.len(), k);
    }
    let mut rng = Mix::new(c.seed ^ 77);
    for i in 0..2000u64 {
        let k = if i % 2 == 0 { rng.next() } else { i << rng.below(60) };
        ensure_eq!(f.contains(&k), g.contains(&k), "a {} filter of {} keys about {:#x} before and after transfer", name, keys.len(), k);
    }
    ctx.tag(name);
    if keys.len() >= 2 {
        ctx.nt();
    }
    Ok(())
}
#[allow(deprecated)]
pub fn p13_filters(c: &WireFilter, ctx: &mut Ctx) -> Res {
    use xorf::*;
    let keys = keys64(c.n, c.keys, c.seed);
    macro_rules! go {
        ($e:expr) => {
            sent_filter(c, $e, &keys, ctx)
        };
    }
    macro_rules! try_go {
        ($t:ty) => {
            match <$t>::try_from(&keys) {
                Ok(f) => sent_filter(c, f, &keys, ctx),
                Err(_) => {
                    ctx.tag("Fuse filter refused");
                    Ok(())
                }
            }
        };
    }
    match c.kind {
        0 => go!(Xor8::from(&keys)),
        1 => go!(Xor16::from(&keys)),
        2 => go!(Xor32::from(&keys)),
        3 => try_go!(BinaryFuse8),
        4 => try_go!(BinaryFuse16),
        5 => try_go!(BinaryFuse32),
        6 => try_go!(Fuse8),
        7 => try_go!(Fuse16),
        8 => try_go!(Fuse32),
        9 => {
            // the proxy
            let strs = string_keys(c.n, StrKeys::Decimal, c.seed);
            let f: HashProxy<String, DefaultHasher, Xor16> = HashProxy::from(&strs);
            let g = transfer(&f, c.format)?;
            same("a hash proxy", &f, &g)?;
            for s in &strs {
                ensure!(g.contains(s), "a hash proxy forgot {:?} in transfer", s);
            }
            let f: HashProxy<String, Fnv, Xor8> = HashProxy::from(&strs[..]);
            let g = transfer(&f, c.format)?;
            ensure_eq!(Filter::<String>::len(&f), Filter::<String>::len(&g), "length of a hash proxy");
            for s in &strs {
                ensure!(g.contains(s), "a hash proxy forgot {:?} in transfer", s);
            }
            let mut rng = Mix::new(c.seed);
            for _ in 0..1000 {
                let s = format!("absent {}", rng.next());
                ensure_eq!(f.contains(&s), g.contains(&s), "a hash proxy about {:?} before and after transfer", s);
            }
            ctx.tag("HashProxy");
            ctx.nt();
            Ok(())
        }
        _ => {
            // the storage filter
            let mut rng = Mix::new(c.seed);
            let keys: Vec<[u64; 4]> = keys.iter().map(|k| [*k, k.rotate_left(9), !*k, 5]).collect();
            let modulus = 1u64 << (8 + rng.below(25));
            let data: Vec<u32> = keys.iter().map(|_| (rng.next() % modulus) as u32).collect();
            let label = rng.next();
            let mut seed = [0u8; 32];
            let mut f = Err("");
            for _ in 0..40 {
                seed.copy_from_slice(&rng.bytes(32));
                f = BinaryFuseP32::from_slice(seed, &keys, &data, label, modulus);
                if f.is_ok() {
                    break;
                }
            }
            let f = e2s("building a storage filter with 40 seeds", f)?;
            let g = transfer(&f, c.format)?;
            same("a storage filter", &f, &g)?;
            for (k, d) in keys.iter().zip(&data) {
                ensure_eq!(g.retrieve(k, label), *d, "what a sent storage filter holds under {:x?}", k);
            }
            for _ in 0..200 {
                let k = rnd_key(&mut rng);
                ensure_eq!(f.retrieve(&k, label), g.retrieve(&k, label), "a storage filter about {:x?} before and after", k);
            }
            ensure!(f.get_fingerprints_mod() == g.get_fingerprints_mod(), "the fingerprints of a storage filter changed");
            ensure_eq!(f.len(), g.len(), "length of a storage filter");
            ctx.tag("BinaryFuseP32");
            if keys.len() >= 2 {
                ctx.nt();
            }
            Ok(())
        }
    }
}
/// Databases of every chunk width (most too wide for queries), in both formats.
pub fn p13_databases(c: &(LoadCase, Vec<u8>), ctx: &mut Ctx) -> Res {
    let (c, formats) = c;
    let mut w = Wire { formats, i: 0, by: [0; 4] };
    let elems = elements(c.m, c.bits, c.pb, c.fill, c.seed);
    let strs = b64s(&elems);
    let width = chunks(c.bits, c.pb);
    let shard = build_shard(&strs, 1, c.bits, c.pb, false)?;
    let s2 = w.send("an index server", &shard)?;
    same_db("an index server's database", shard.get_db(), s2.get_db())?;
    let mut db = w.send("an index database", shard.get_db())?;
    same_db("an index database", shard.get_db(), &db)?;
    for i in 0..c.m {
        ensure_eq!(s2.get_db().get_db_entry(i), strs[i], "entry {} of a sent index server (width {})", i, c.pb);
        ensure_eq!(db.get_db_entry(i), strs[i], "entry {} of a sent index database (width {})", i, c.pb);
    }
    let mut rng = Mix::new(c.seed ^ 0x13);
    let v: Vec<u32> = (0..c.m).map(|_| rng.next() as u32).collect();
    let q = make_query(&v)?;
    ensure_eq!(e2s("respond", shard.respond(&q))?, e2s("respond of the restored server", s2.respond(&q))?, "answers of original and restored server (width {})", c.pb);
    ensure_eq!(s2.into_row_iter().collect::<Vec<_>>(), strs, "rows of the restored server");
    // sent in the transposed format
    db.switch_fmt();
    let mut t = w.send("a transposed index database", &db)?;
    for i in 0..c.m {
        ensure_eq!(t.get_row(i), chunk_row(&elems[i], c.bits, c.pb), "row {} of a sent transposed database (width {})", i, c.pb);
    }
    t.switch_fmt();
    for i in 0..width {
        ensure_eq!(t.get_row(i), column(&elems, i, c.pb), "column {} of a database sent transposed (width {})", i, c.pb);
    }
    // keyword
    let pb = c.pb.clamp(8, 31);
    let elems = elements(c.m, c.bits, pb, c.fill, c.seed);
    let keys = keys256(c.m, Key256::Random, c.seed);
    let ks = build_kv(Entry::New, &keys, None, &elems, 1, c.bits, pb)?;
    let k2 = w.send("a keyword server", &ks)?;
    same_db("a keyword server's database", ks.get_db(), k2.get_db())?;
    ensure!(ks.get_db().entries == k2.get_db().entries, "entries of a keyword server's database changed");
    let h = ks.get_db().get_matrix_height();
    let v: Vec<u32> = (0..h).map(|_| rng.next() as u32).collect();
    let q = make_query(&v)?;
    ensure_eq!(e2s("respond", ks.respond(&q))?, e2s("respond of the restored server", k2.respond(&q))?, "answers of original and restored keyword server (width {})", pb);
    let mut kdb = ks.get_db().clone();
    kdb.switch_fmt();
    let mut t = w.send("a transposed keyword database", &kdb)?;
    ensure!(t.entries == kdb.entries, "entries of a transposed keyword database changed");
    t.switch_fmt();
    ensure!(t.entries == ks.get_db().entries, "entries of a keyword database sent transposed changed");
    for (i, n) in w.by.iter().enumerate() {
        ctx.tag_n(["bincode", "JSON text", "JSON value", "JSON stream"][i], *n);
    }
    ctx.tag_if(c.pb > 16, "chunks of more than 16 bits");
    if c.m >= 2 && width >= 2 {
        ctx.nt();
    }
    Ok(())
}
fn p13_db_strat(m: (usize, usize), bits: (usize, usize)) -> BoxedStrategy<(LoadCase, Vec<u8>)> {
    (load_strat(m, bits), proptest::collection::vec(0u8..4, 1..6)).boxed()
}
pub fn p13_property() -> Property {
    Property {
        id: "P13",
        rule: "A case is an index and a keyword server and a random sequence of formats (bincode, JSON text, JSON value, JSON stream); both protocols are run with every artefact of every step sent through the next format, each compared with the original in both kinds of format and in behaviour. 'databases': databases of every chunk width and contents, also transposed. 'filters': one filter of any kind, hash proxy or storage filter, sent through one format and compared on its keys and 2000 probes. Non-trivial: both a binary and a text format were used; at least two keys for filters.",
        subs: vec![
            Sub::new("protocol", 30000, 600000, || wire_strat((1, 40), (1, 200), (1, 32)), p13).boxed(),
            Sub::new("protocol wide", 40, 800, || wire_strat((1, 5), (5_000, 90_000), (1, 4)), p13).boxed(),
            Sub::new("protocol medium", 800, 16000, || wire_strat((1, 800), (1, 400), (1, 200)), p13).boxed(),
            Sub::new("protocol deep", 30, 600, || wire_strat((1, 4), (1, 40), (30_000, 80_000)), p13).boxed(),
            Sub::new("protocol tall", 16, 320, || wire_strat((60_000, 140_000), (1, 12), (1, 3)), p13).workers(4).boxed(),
            Sub::new("databases", 40000, 800000, || p13_db_strat((1, 30), (1, 200)), p13_databases).boxed(),
            Sub::new("databases wide", 30, 600, || p13_db_strat((1, 6), (5_000, 300_000)), p13_databases).boxed(),
            Sub::new("databases medium", 400, 8000, || p13_db_strat((30, 3_000), (1, 100)), p13_databases).boxed(),
            Sub::new("filters", 40000, 800000, || filter_strat(1, 400, &[0, 1, 2, 3, 4, 5, 9, 10]), p13_filters).boxed(),
            Sub::new("filters empty", 400, 4000, || filter_strat(0, 1, &[0, 1, 2, 3, 4, 5, 9]), p13_filters).boxed(),
            Sub::new("filters medium", 900, 18000, || filter_strat(400, 30_000, &[0, 1, 2, 3, 4, 5, 9, 10]), p13_filters).boxed(),
            Sub::new("filters large", 18, 360, || filter_strat(150_000, 300_000, &[6, 7, 8]), p13_filters).workers(4).boxed(),
        ],
    }
}

// ---- P14 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CodecCase {
    pub x: u32,
    pub bits: usize,
    pub pb: usize,
    pub fill: Fill,
    pub seed: u64,
}
fn codec_strat(lo: usize, hi: usize) -> BoxedStrategy<CodecCase> {
    (
        prop_oneof![
            2 => any::<u32>(),
            1 => (0u32..32, 0u32..3).prop_map(|(e, d)| (1u32 << e).wrapping_add(d).wrapping_sub(1)),
            1 => Just(u32::MAX)
        ],
        sized(lo, hi),
        1usize..=32,
        fill(),
        any::<u64>(),
    )
        .prop_map(|(x, bits, pb, fill, seed)| CodecCase { x, bits, pb, fill, seed })
        .boxed()
}
pub fn p14(c: &CodecCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed ^ 14);
    // integers and bits
    for len in 0..=32usize {
        let b = u32_to_bits_le(c.x, len);
        ensure_eq!(b.len(), len, "number of bits of {:#x}", c.x);
        for (i, v) in b.iter().enumerate() {
            ensure_eq!(*v, (c.x >> i) & 1 == 1, "bit {} of {:#x} ({} bits)", i, c.x, len);
        }
        let back = e2s("bits_to_u32_le", bits_to_u32_le(&b))?;
        let want = if len == 32 { c.x } else { c.x & ((1u32 << len) - 1) };
        ensure_eq!(back, want, "{} bits of {:#x} and back", len, c.x);
    }
    // bytes and bits
    let n = elem_bytes(c.bits);
    let bytes = rng.bytes(n);
    let bits = bytes_to_bits_le(&bytes);
    ensure_eq!(bits.len(), 8 * n, "number of bits of {} bytes", n);
    for (i, v) in bits.iter().enumerate() {
        ensure_eq!(*v, get_bit(&bytes, i) == 1, "bit {} of {} bytes", i, n);
    }
    ensure_eq!(bits_to_bytes_le(&bits), bytes, "{} bytes to bits and back", n);
    // any number of bits
    let cut = &bits[..c.bits];
    let mut want = bytes.clone();
    mask_top(&mut want, c.bits);
    ensure_eq!(bits_to_bytes_le(cut), want, "{} bits to bytes", c.bits);
    ensure_eq!(bytes_to_bits_le(&want)[..c.bits].to_vec(), cut.to_vec(), "{} bits to bytes and back", c.bits);
    // more than 32 bits are refused, whatever they hold
    match guarded(|| bits_to_u32_le(cut))? {
        Ok(x) => {
            ensure!(c.bits <= 32, "{} bits were read as an integer", c.bits);
            ensure_eq!(x, chunk(&want, 0, 32), "{} bits read as an integer", c.bits);
        }
        Err(_) => ensure!(c.bits > 32, "{} bits were refused", c.bits),
    }
    let zeros = vec![false; c.bits];
    match guarded(|| bits_to_u32_le(&zeros))? {
        Ok(x) => ensure!(c.bits <= 32 && x == 0, "{} zero bits were read as {}", c.bits, x),
        Err(_) => ensure!(c.bits > 32, "{} zero bits were refused", c.bits),
    }
    match guarded(|| u32_sized_bytes_from_vec(bytes.clone()))? {
        Ok(b) => ensure!(n == 4 && b[..] == bytes[..], "{} bytes were taken for the four bytes {:?}", n, b),
        Err(_) => ensure!(n != 4, "four bytes were refused"),
    }
    // chunk rows
    let e = element(0, c.bits, c.pb, c.fill, &mut rng);
    let row = chunk_row(&e, c.bits, c.pb);
    ensure_eq!(bytes_from_u32_slice(&row, c.pb, c.bits), e, "bytes from {} chunks of {} bits ({} bits in all)", row.len(), c.pb, c.bits);
    ensure_eq!(base64_from_u32_slice(&row, c.pb, c.bits), b64(&e), "base64 from {} chunks of {} bits ({} bits in all)", row.len(), c.pb, c.bits);
    // the same for chunks that come out of the library's own bit conversion
    let kv = e2s("KeyValue::from_base64_strings", KeyValue::from_base64_strings("k", &b64(&e), c.bits, c.pb))?;
    ensure_eq!(kv.value, row, "chunks of {} bits of an element of {} bits", c.pb, c.bits);
    // the key hash, of bytes of this length
    let d = e2s("sha256_into_u64_sized", sha256_into_u64_sized(&bytes))?;
    let reference = crate::sha::words(&crate::sha::sha256(&bytes));
    ensure_eq!(d, reference, "key hash of {} bytes", n);
    let text: String = bytes.iter().map(|b| char::from(*b)).collect();
    let kv = e2s("KeyValue::from_base64_strings", KeyValue::from_base64_strings(&text, &b64(&e), c.bits, c.pb))?;
    ensure_eq!(kv.key, crate::sha::words(&crate::sha::sha256(text.as_bytes())), "key of a pair");
    ctx.tag_if(c.bits % c.pb == 0, "width divides total");
    ctx.tag_if(c.pb > c.bits, "chunk wider than the total");
    ctx.tag_if(c.bits > 32, "too many bits for an integer");
    ctx.tag_if(c.bits % 8 != 0, "not whole bytes");
    ctx.tag_if(c.pb == 32, "width 32");
    if e.iter().any(|b| *b != 0) && c.bits > 1 {
        ctx.nt();
    }
    Ok(())
}
/// Every combination of widths and short lengths.
pub fn p14_all(c: &(usize, u64), ctx: &mut Ctx) -> Res {
    for pb in 1..=32 {
        for fill in [Fill::Random, Fill::Ones, Fill::OneBit, Fill::EdgeChunks] {
            let mut rng = Mix::new(c.1 ^ pb as u64);
            let e = element(0, c.0, pb, fill, &mut rng);
            let row = chunk_row(&e, c.0, pb);
            ensure_eq!(bytes_from_u32_slice(&row, pb, c.0), e, "bytes from {} chunks of {} bits ({} bits in all)", row.len(), pb, c.0);
            ensure_eq!(base64_from_u32_slice(&row, pb, c.0), b64(&e), "base64 from {} chunks of {} bits ({} bits)", row.len(), pb, c.0);
            ctx.tag("width and length pairs");
        }
    }
    ctx.nt();
    Ok(())
}
pub fn p14_property() -> Property {
    Property {
        id: "P14",
        rule: "A case is an integer (edges over-represented), a bit length, a chunk width 1..32 and contents; every conversion is compared with an independent bit model and inverted, for all bit lengths 0..32 of the integer. 'lengths': one length with all 32 widths and four fills. Non-trivial: more than one bit and not all zero.",
        subs: vec![
            Sub::new("short", 120000, 2400000, || codec_strat(1, 200), p14).boxed(),
            Sub::new("long", 12000, 240000, || codec_strat(200, 9_000), p14).boxed(),
            Sub::new("giant", 24, 480, || codec_strat(60_000, 1_200_000), p14).workers(6).boxed(),
            Sub::new("enormous", 2, 40, || codec_strat((1 << 24) + 1, (1 << 24) + (1 << 21)), p14).workers(2).boxed(),
            Sub::new("together", 4000, 80000, || several(codec_strat(1, 400)), |c, ctx| together(c, 3, ctx, p14)).workers(3).boxed(),
            Sub::new("lengths", 6000, 120000, || (sized(1, 700), any::<u64>()).boxed(), p14_all).boxed(),
        ],
    }
}

// ---- P15 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FileCase {
    pub idx: IdxCase,
    pub kv: KvCase,
    /// what each target holds before: 0 nothing, 1 garbage, 2 a lot of
    /// garbage, 3 somebody else's output, 4 an empty file
    pub before: (u8, u8),
    pub broken: u8,
}
fn file_strat(n: (usize, usize), bits: (usize, usize), dim: (usize, usize)) -> BoxedStrategy<FileCase> {
    (idx_strat(n, bits, dim, 2), kv_strat(n, bits, dim, 2), 0u8..5, 0u8..5, 0u8..5)
        .prop_map(|(idx, kv, a, b, broken)| FileCase { idx, kv, before: (a, b), broken })
        .boxed()
}
fn prepare(path: &Path, how: u8, other: &Shard) -> Res {
    match how {
        0 => Ok(()),
        1 => e2s("preparing a file", std::fs::write(path, "} not JSON {")),
        2 => e2s("preparing a file", std::fs::write(path, "[9]".repeat(200_000))),
        3 => {
            let x = scratch("x");
            let r = e2s("write_to_file", other.write_to_file(path.to_str().unwrap(), x.to_str().unwrap()));
            let _ = std::fs::remove_file(x);
            r
        }
        _ => e2s("preparing a file", std::fs::write(path, "")),
    }
}
/// A path that cannot be written.
fn unwritable(how: u8, dir: &Path) -> PathBuf {
    match how % 5 {
        0 => dir.join("no such directory").join("f"),
        1 => dir.to_path_buf(),
        // by a link: whatever the code does to the path, it stays in here
        2 => {
            let f = dir.join("full");
            let _ = std::os::unix::fs::symlink("/dev/full", &f);
            f
        }
        3 => PathBuf::from(""),
        _ => {
            let f = dir.join("a file");
            let _ = std::fs::write(&f, "x");
            f.join("f")
        }
    }
}
fn read_cols(path: &Path) -> Result<Vec<Vec<u32>>, String> {
    let t = e2s("reading the exported matrix", std::fs::read_to_string(path))?;
    e2s("parsing the exported matrix", serde_json::from_str(&t))
}
pub fn p15(c: &FileCase, ctx: &mut Ctx) -> Res {
    let dir = scratch("p15");
    e2s("scratch directory", std::fs::create_dir_all(&dir))?;
    let r = p15_in(c, &dir, ctx);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn p15_in(c: &FileCase, dir: &Path, ctx: &mut Ctx) -> Res {
    let s = setup_idx(&c.idx, 2_000_000)?;
    let k = setup_kv(&c.kv, 2_000_000)?;
    let other = build_shard(&b64s(&elements(3, 24, 8, Fill::Random, c.idx.seed)), 2, 24, 8, false)?;
    let cols: Vec<Vec<u32>> = (0..s.width).map(|i| column(&s.elems, i, s.pb)).collect();
    let at = |n: &str| dir.join(n);
    let st = |p: &Path| p.to_str().unwrap().to_string();
    // names that have much in common, and other people's files beside them
    const NAMES: [(&str, &str); 24] = [
        ("db.json", "params.json"),
        ("shard.tmp", "shard.json"),
        ("shard.json", "shard.tmp"),
        ("shard.json.tmp", "shard.json"),
        ("shard.json", "shard.json.tmp"),
        ("shard", "shard.bak"),
        ("shard.json~", "shard.json"),
        (".shard.json.tmp", ".shard.json"),
        // names that something on the way could take for something else
        ("db.json ", "params.json "),
        (" db", " params"),
        ("db\n", "db"),
        ("\u{a0}p\u{a0}", "p"),
        ("p", "p "),
        ("Params.json", "params.json"),
        ("params.JSON", "params.json"),
        ("a%20b", "a b"),
        ("~", "~root"),
        ("$HOME", "${PATH}"),
        ("*", "?"),
        ("db\\params", "'db' \"params\""),
        ("e\u{301}", "\u{e9}"),
        ("-", "--"),
        ("db;params", "db,params"),
        ("file:db", "db?x=1#y"),
    ];
    let names = NAMES[(c.idx.seed >> 8) as usize % NAMES.len()];
    let (dbp, pap) = (at(names.0), at(names.1));
    // the same places in other words
    let (dbp, pap) = match c.idx.seed >> 16 & 7 {
        0 => (dir.join(".").join(names.0), pap),
        1 => {
            e2s("scratch directory", std::fs::create_dir_all(dir.join(" a b ")))?;
            (dbp, dir.join(" a b ").join("..").join(names.1))
        }
        2 => (PathBuf::from(format!("{}//{}", dir.display(), names.0)), pap),
        _ => (dbp, pap),
    };
    let others: Vec<PathBuf> = ["shard.tmp", "shard.bak", "shard.json.tmp", "shard.json~", "shard.json.bak", ".shard.json.tmp", "shard.json.old", "shard.swp", "tmp", "db.tmp", "params.tmp", "db.json.tmp", "params.json.tmp"]
        .iter()
        .map(|n| at(n))
        .filter(|p| *p != at(names.0) && *p != at(names.1))
        .collect();
    for p in &others {
        e2s("preparing a file", std::fs::write(p, "somebody else's"))?;
    }
    // index server
    prepare(&dbp, c.before.0, &other)?;
    prepare(&pap, c.before.1, &other)?;
    for round in 0..2 {
        e2s("write_to_file", s.shard.write_to_file(&st(&dbp), &st(&pap)))?;
        ensure!(read_cols(&dbp)? == cols, "the database file does not hold the matrix (round {})", round);
        let bp = e2s("IndexParams::load", IndexParams::load(&st(&pap)))?;
        same_params("loaded index parameters", s.shard.get_base_params(), &bp)?;
        same("loaded index parameters", s.shard.get_base_params(), &bp)?;
        let cp = CommonParams::from(&bp);
        for row in pick_rows(c.idx.m, c.idx.queries, c.idx.seed) {
            let mut qp = e2s("generate_index_query_params", generate_index_query_params(&cp, &bp))?;
            let q = e2s("generate_query", qp.generate_query(row))?;
            let resp = decode(e2s("respond", s.shard.respond(&q))?)?;
            check_index_answer(&qp, &resp, &s.elems[row], c.idx.bits, s.pb, row)
                .map_err(|e| format!("with loaded parameters: {}", e))?;
        }
    }
    // the parameters alone, and loaded parameters written again
    let again = at("again.json");
    prepare(&again, c.before.0, &other)?;
    let bp = e2s("IndexParams::load", IndexParams::load(&st(&pap)))?;
    e2s("write_to_file of loaded parameters", bp.write_to_file(&st(&again)))?;
    same("parameters written twice", &bp, &e2s("IndexParams::load", IndexParams::load(&st(&again)))?)?;
    // a smaller server's output replaces it
    e2s("write_to_file", other.write_to_file(&st(&dbp), &st(&pap)))?;
    same("parameters that replaced others", other.get_base_params(), &e2s("IndexParams::load", IndexParams::load(&st(&pap)))?)?;
    ensure!(read_cols(&dbp)?.len() == 3, "the matrix that replaced another one has {} columns", read_cols(&dbp)?.len());
    // keyword server, over the same files
    prepare(&dbp, c.before.1, &other)?;
    prepare(&pap, c.before.0, &other)?;
    e2s("KVShard::write_to_file", k.shard.write_to_file(&st(&dbp), &st(&pap)))?;
    let kdb = k.shard.get_db();
    let kcols: Vec<Vec<u32>> = (0..k.width).map(|i| kdb.get_row(i)).collect();
    ensure!(read_cols(&dbp)? == kcols, "the database file does not hold the keyword server's matrix");
    let text = e2s("reading the parameters", std::fs::read_to_string(&pap))?;
    let kp: KVParams = e2s("loading keyword parameters", serde_json::from_str(&text))?;
    same_params("loaded keyword parameters", k.shard.get_base_params(), &kp)?;
    same("loaded keyword parameters", k.shard.get_base_params(), &kp)?;
    let cp = CommonParams::from(&kp);
    for i in pick_rows(c.kv.n, c.kv.queries, c.kv.seed) {
        let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp, &kp))?;
        let q = e2s("generate_query", qp.generate_query(&k.keys[i]))?;
        let resp = decode(e2s("respond", k.shard.respond(&q))?)?;
        check_kv_answer(&qp, &resp, &k.keys[i], &k.elems[i], c.kv.bits, k.pb, &format!("pair {}", i))
            .map_err(|e| format!("with loaded parameters: {}", e))?;
    }
    let kagain = at("kagain.json");
    e2s("KVParams::write_to_file", kp.write_to_file(&st(&kagain)))?;
    let kp2: KVParams = e2s("loading", serde_json::from_str(&std::fs::read_to_string(&kagain).unwrap()))?;
    same("keyword parameters written twice", &kp, &kp2)?;
    // paths that cannot be written
    let bad = st(&unwritable(c.broken, dir));
    let good = st(&at("fine.json"));
    for (what, r) in [
        ("Shard::write_to_file, database", guarded(|| s.shard.write_to_file(&bad, &good).is_err())),
        ("Shard::write_to_file, parameters", guarded(|| s.shard.write_to_file(&good, &bad).is_err())),
        ("KVShard::write_to_file, database", guarded(|| k.shard.write_to_file(&bad, &good).is_err())),
        ("KVShard::write_to_file, parameters", guarded(|| k.shard.write_to_file(&good, &bad).is_err())),
        ("IndexDatabase::write_to_file", guarded(|| s.shard.get_db().write_to_file(&bad).is_err())),
        ("KVDatabase::write_to_file", guarded(|| kdb.write_to_file(&bad).is_err())),
        ("IndexParams::write_to_file", guarded(|| s.shard.get_base_params().write_to_file(&bad).is_err())),
        ("KVParams::write_to_file", guarded(|| kp.write_to_file(&bad).is_err())),
    ] {
        let failed = r.map_err(|p| format!("{} to {:?}: {}", what, bad, p))?;
        ensure!(failed, "{}: no error for the unwritable path {:?}", what, bad);
    }
    // several servers write at once
    let wrote = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (d, p) = (st(&at(&format!("{}.db", t))), st(&at(&format!("{}.params", t))));
                let (s, k, other) = (&s, &k, &other);
                sc.spawn(move || {
                    guarded(|| match t {
                        0 => s.shard.write_to_file(&d, &p).map_err(|e| e.to_string()),
                        1 => k.shard.write_to_file(&d, &p).map_err(|e| e.to_string()),
                        2 => other.write_to_file(&d, &p).map_err(|e| e.to_string()),
                        _ => s.shard.write_to_file(&d, &p).map_err(|e| e.to_string()),
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    for (t, r) in wrote.into_iter().enumerate() {
        match r {
            Ok(Ok(Ok(()))) => {}
            other => return Err(format!("write_to_file while others write: {:?}", other.map_err(|_| "thread died"))),
        }
        let (d, p) = (at(&format!("{}.db", t)), at(&format!("{}.params", t)));
        match t {
            1 => {
                ensure!(read_cols(&d)? == kcols, "the database file of a keyword server holds something else after several writes at once");
                let kp: KVParams = e2s("loading keyword parameters", serde_json::from_str(&e2s("reading", std::fs::read_to_string(&p))?))?;
                same("keyword parameters written while others write", k.shard.get_base_params(), &kp)?;
            }
            _ => {
                let sh = if t == 2 { &other } else { &s.shard };
                same("parameters written while others write", sh.get_base_params(), &e2s("IndexParams::load", IndexParams::load(&st(&p)))?)?;
                ensure!(t == 2 || read_cols(&d)? == cols, "the database file holds something else after several writes at once");
            }
        }
    }
    // and nothing changed by it
    e2s("write_to_file", s.shard.write_to_file(&st(&dbp), &st(&pap)))?;
    ensure!(read_cols(&dbp)? == cols, "the database file does not hold the matrix after failed writes");
    same("loaded index parameters", s.shard.get_base_params(), &e2s("IndexParams::load", IndexParams::load(&st(&pap)))?)?;
    for p in &others {
        let t = e2s(&format!("reading {:?}, which is not written to", p.file_name()), std::fs::read_to_string(p))?;
        ensure_eq!(t, "somebody else's", "{:?}, beside the files {:?} that were written", p.file_name(), names);
    }
    ctx.tag(["fresh", "garbage", "longer garbage", "other output", "empty"][c.before.1 as usize % 5]);
    ctx.tag(["missing directory", "directory", "full device", "empty path", "file as directory"][c.broken as usize % 5]);
    ctx.tag_n("files written", 11);
    if c.before.0 > 0 || c.before.1 > 0 {
        ctx.nt();
    }
    Ok(())
}
pub fn p15_property() -> Property {
    Property {
        id: "P15",
        rule: "A case is an index and a keyword server, what the two target files hold before (nothing, garbage, longer garbage, another server's output, nothing at all), names of the two targets (some of which temporary files might have, and some odd ones), other files beside them, four servers writing at once, and a path that cannot be written (missing directory, a directory, a full device, empty, below a file). Non-trivial: a target existed before.",
        subs: vec![
            Sub::new("small", 12000, 240000, || file_strat((1, 40), (1, 200), (1, 32)), p15).boxed(),
            Sub::new("medium", 900, 18000, || file_strat((1, 600), (1, 300), (1, 150)), p15).boxed(),
            Sub::new("wide", 40, 800, || file_strat((1, 5), (5_000, 90_000), (1, 4)), p15).boxed(),
            Sub::new("deep", 40, 800, || file_strat((1, 4), (1, 40), (30_000, 80_000)), p15).boxed(),
            Sub::new("tall", 12, 240, || file_strat((4_000, 80_000), (1, 24), (1, 3)), p15).workers(4).boxed(),
        ],
    }
}

// ---- P16 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    pub n: usize,
    pub bits: usize,
    pub pb: usize,
    pub dim: usize,
    pub which: u16,
    pub how: u8,
    pub by: usize,
    pub seed: u64,
}
fn bad_strat() -> BoxedStrategy<BadCase> {
    (sized(1, 60), sized(1, 400), 8usize..=12, sized(1, 24), any::<u16>(), any::<u8>(), sized(1, 50), any::<u64>())
        .prop_map(|(n, bits, pb, dim, which, how, by, seed)| BadCase { n, bits, pb, dim, which, how, by, seed })
        .boxed()
}
/// Neither a panic nor a result.
fn must_fail<T, E>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Res {
    match guarded(f) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{}: accepted", what)),
        Err(p) => Err(format!("{}: {}", what, p)),
    }
}
/// Certainly not base64.
fn not_base64(good: &str, how: u8, rng: &mut Mix) -> String {
    let chars: Vec<char> = good.chars().collect();
    let at = rng.below(chars.len().max(1));
    let with = |c: char| {
        let mut v = chars.clone();
        if v.is_empty() {
            v.push(c)
        } else {
            v[at] = c
        }
        v.into_iter().collect::<String>()
    };
    match how % 11 {
        0 => with('!'),
        1 => with('-'),
        2 => with('_'),
        3 => with('\n'),
        4 => with('\u{e9}'),
        5 => with('\0'),
        6 => format!("{}A", good.trim_end_matches('=')).chars().take(4 * (good.len() / 4).max(1) - 3).collect::<String>() + "", // 4k+1 characters
        7 => format!(" {}", good),
        // bits left over that belong to no byte
        8 | 9 if good.ends_with('=') => {
            let pad = good.chars().rev().take_while(|c| *c == '=').count();
            let alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let last = chars.len() - pad - 1;
            let v = alphabet.find(chars[last]).unwrap_or(0);
            let mut c = chars.clone();
            c[last] = alphabet.as_bytes()[v | 1 + rng.below(if pad == 2 { 15 } else { 3 })] as char;
            c.into_iter().collect()
        }
        // padding in the middle
        8 | 9 => format!("AA=={}", good),
        _ => with('\u{221e}'),
    }
}
fn wrong_json(kind: u8, good: &str, rng: &mut Mix) -> Vec<u8> {
    match kind % 12 {
        0 => b"".to_vec(),
        1 => good.as_bytes()[..rng.below(good.len())].to_vec(),
        2 => format!("{}]", good).into_bytes(),
        3 => b"{\"elements\": []}".to_vec(),
        4 => b"[1, 2, 3]".to_vec(),
        5 => b"[[\"AAAA\"]]".to_vec(),
        6 => b"null".to_vec(),
        7 => b"\"AAAA\"".to_vec(),
        8 => vec![0xff, 0xfe, 0x5b, 0x5d],
        9 => rng.bytes(40).into_iter().map(|b| b | 0x80).collect(),
        10 => b"[{\"key\": \"a\"}]".to_vec(),
        _ => b"[{\"key\": \"a\", \"value\": 7}]".to_vec(),
    }
}
pub fn p16_elements(c: &BadCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed ^ 16);
    let elems = elements(c.n, c.bits, c.pb, Fill::Random, c.seed);
    let at = (c.which as usize * c.n) >> 16;
    let mut strs = b64s(&elems);
    let keys = string_keys(c.n, StrKeys::Decimal, c.seed);
    let bytes = elem_bytes(c.bits);
    // a well-formed one is accepted (so that what follows is due to the fault)
    e2s("a well-formed index database", Shard::from_base64_strings(&strs, c.dim, c.n, c.bits, c.pb))?;
    e2s("a well-formed keyword database", KVShard::from_base64_strings(&keys, &strs, c.dim, c.n, c.bits, c.pb))?;
    let good = strs[at].clone();
    let what = match c.how % 3 {
        0 => {
            strs[at] = not_base64(&good, (c.seed >> 40) as u8, &mut rng);
            format!("element {} of {}, {:?} instead of {:?}", at, c.n, short(&strs[at]), short(&good))
        }
        1 => {
            let keep = bytes - c.by.min(bytes);
            strs[at] = b64(&elems[at][..keep]);
            format!("element {} of {}, {} bytes instead of {}", at, c.n, keep, bytes)
        }
        _ => {
            strs[at] = String::new();
            format!("element {} of {}, empty instead of {} bytes", at, c.n, bytes)
        }
    };
    ctx.tag(["not base64", "too short", "empty"][c.how as usize % 3]);
    ctx.tag_if(at > 0, "not the first element");
    ctx.nt();
    must_fail(&format!("IndexDatabase::new, {}", what), || IndexDatabase::new(&strs, c.n, c.bits, c.pb))?;
    must_fail(&format!("Shard::from_base64_strings, {}", what), || Shard::from_base64_strings(&strs, c.dim, c.n, c.bits, c.pb))?;
    must_fail(&format!("KeyValue::from_base64_strings, {}", what), || KeyValue::from_base64_strings(&keys[at], &strs[at], c.bits, c.pb))?;
    must_fail(&format!("KVDatabase::from_base64_strings, {}", what), || {
        KVDatabase::from_base64_strings(&keys, &strs, c.n, c.bits, c.pb)
    })?;
    must_fail(&format!("KVShard::from_base64_strings, {}", what), || {
        KVShard::from_base64_strings(&keys, &strs, c.dim, c.n, c.bits, c.pb)
    })?;
    let p = scratch("bad.json");
    let path = p.to_str().unwrap();
    let r = (|| -> Res {
        std::fs::write(&p, serde_json::to_string(&strs).unwrap()).unwrap();
        must_fail(&format!("Shard::from_json_file, {}", what), || Shard::from_json_file(path, c.dim, c.n, c.bits, c.pb))?;
        must_fail(&format!("IndexDatabase::from_file, {}", what), || IndexDatabase::from_file(path, c.n, c.bits, c.pb))?;
        let list: Vec<Value> = keys.iter().zip(&strs).map(|(k, v)| json!({"key": k, "value": v})).collect();
        std::fs::write(&p, serde_json::to_string(&list).unwrap()).unwrap();
        must_fail(&format!("KVShard::from_json_file, {}", what), || KVShard::from_json_file(path, c.dim, c.n, c.bits, c.pb))
    })();
    let _ = std::fs::remove_file(&p);
    r
}
/// Wrong numbers of things.
pub fn p16_counts(c: &BadCase, ctx: &mut Ctx) -> Res {
    let elems = elements(c.n, c.bits, c.pb, Fill::Random, c.seed);
    let strs = b64s(&elems);
    let keys = string_keys(c.n + c.by, StrKeys::Decimal, c.seed);
    // fewer elements than announced
    let m = c.n + c.by;
    for have in [c.n, 0] {
        let what = format!("{} elements, {} announced", have, m);
        must_fail(&format!("IndexDatabase::new, {}", what), || IndexDatabase::new(&strs[..have], m, c.bits, c.pb))?;
        must_fail(&format!("Shard::from_base64_strings, {}", what), || {
            Shard::from_base64_strings(&strs[..have], c.dim, m, c.bits, c.pb)
        })?;
    }
    let p = scratch("few.json");
    let path = p.to_str().unwrap();
    let r = (|| -> Res {
        std::fs::write(&p, serde_json::to_string(&strs).unwrap()).unwrap();
        must_fail(&format!("Shard::from_json_file, {} elements, {} announced", c.n, m), || {
            Shard::from_json_file(path, c.dim, m, c.bits, c.pb)
        })?;
        must_fail(&format!("IndexDatabase::from_file, {} elements, {} announced", c.n, m), || {
            IndexDatabase::from_file(path, m, c.bits, c.pb)
        })?;
        std::fs::write(&p, "[]").unwrap();
        must_fail("Shard::from_json_file, an empty list", || Shard::from_json_file(path, c.dim, m, c.bits, c.pb))?;
        must_fail("KVShard::from_json_file, an empty list", || KVShard::from_json_file(path, c.dim, m, c.bits, c.pb))
    })();
    let _ = std::fs::remove_file(&p);
    r?;
    // differing numbers of keys and values
    let more: Vec<String> = strs.iter().cycle().take(m).cloned().collect();
    for (k, v) in [(&keys[..m], &strs[..]), (&keys[..c.n], &more[..]), (&keys[..0], &strs[..]), (&keys[..c.n], &strs[..0])] {
        let what = format!("{} keys and {} values", k.len(), v.len());
        must_fail(&format!("KVDatabase::from_base64_strings, {}", what), || KVDatabase::from_base64_strings(k, v, c.n, c.bits, c.pb))?;
        must_fail(&format!("KVShard::from_base64_strings, {}", what), || {
            KVShard::from_base64_strings(k, v, c.dim, c.n, c.bits, c.pb)
        })?;
    }
    let k256 = keys256(m, Key256::Random, c.seed);
    let data: Vec<u32> = (0..m as u32).map(|x| x % 256).collect();
    let mut seed = [0u8; 32];
    seed[..8].copy_from_slice(&c.seed.to_le_bytes());
    for (k, v) in [(m, c.n), (c.n, m), (m, 0), (0, m)] {
        let what = format!("{} keys and {} items", k, v);
        must_fail(&format!("BinaryFuseP32::from_slice, {}", what), || {
            xorf::BinaryFuseP32::from_slice(seed, &k256[..k], &data[..v], c.seed % 5, 256)
        })?;
        must_fail(&format!("BinaryFuseP32::from_vec, {}", what), || {
            xorf::BinaryFuseP32::from_vec(seed, k256[..k].to_vec(), &data[..v], c.seed % 5, 256)
        })?;
    }
    // no pairs at all
    must_fail("KVShard::new, no pairs", || KVShard::new(&[], c.dim, 0, c.bits, c.pb))?;
    must_fail("KVDatabase::new, no pairs", || KVDatabase::new(&[], c.n, c.bits, c.pb))?;
    must_fail("KVShard::from_base64_strings, no pairs", || KVShard::from_base64_strings(&[], &[], c.dim, 0, c.bits, c.pb))?;
    must_fail("KVDatabase::from_base64_strings, no pairs", || KVDatabase::from_base64_strings(&[], &[], c.n, c.bits, c.pb))?;
    // a pair whose value has too few chunks
    let mut kvs: Vec<KeyValue> = keys
        .iter()
        .zip(&elems)
        .map(|(k, e)| KeyValue { key: crate::sha::words(&crate::sha::sha256(k.as_bytes())), value: chunk_row(e, c.bits, c.pb) })
        .collect();
    e2s("well-formed pairs", KVDatabase::new(&kvs, c.n, c.bits, c.pb))?;
    let at = (c.which as usize * c.n) >> 16;
    let w = chunks(c.bits, c.pb);
    kvs[at].value.truncate(w - c.by.min(w));
    let what = format!("pair {} of {} has {} chunks of {}", at, c.n, kvs[at].value.len(), w);
    must_fail(&format!("KVDatabase::new, {}", what), || KVDatabase::new(&kvs, c.n, c.bits, c.pb))?;
    must_fail(&format!("KVShard::new, {}", what), || KVShard::new(&kvs, c.dim, c.n, c.bits, c.pb))?;
    ctx.tag_if(at > 0, "not the first pair");
    ctx.nt();
    Ok(())
}
/// Missing and malformed files.
pub fn p16_files(c: &BadCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed ^ 61);
    let elems = elements(c.n, c.bits, c.pb, Fill::Random, c.seed);
    let strs = b64s(&elems);
    let keys = string_keys(c.n, StrKeys::Decimal, c.seed);
    let dir = scratch("p16");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let p = dir.join("f.json");
    let path = p.to_str().unwrap();
    let all = |what: &str, list: bool, pairs: bool, params: bool, path: &str| -> Res {
        if list {
            must_fail(&format!("Shard::from_json_file, {}", what), || Shard::from_json_file(path, c.dim, c.n, c.bits, c.pb))?;
            must_fail(&format!("IndexDatabase::from_file, {}", what), || IndexDatabase::from_file(path, c.n, c.bits, c.pb))?;
        }
        if pairs {
            must_fail(&format!("KVShard::from_json_file, {}", what), || KVShard::from_json_file(path, c.dim, c.n, c.bits, c.pb))?;
        }
        if params {
            must_fail(&format!("IndexParams::load, {}", what), || IndexParams::load(path))?;
        }
        Ok(())
    };
    let r = (|| -> Res {
        all("a missing file", true, true, true, path)?;
        all("a directory", true, true, true, dir.to_str().unwrap())?;
        all("an empty path", true, true, true, "")?;
        all("a path with a zero byte", true, true, true, "a\0b")?;
        all("a file below a missing directory", true, true, true, dir.join("no").join("f").to_str().unwrap())?;
        // content
        let list = serde_json::to_string(&strs).unwrap();
        let pairs: Vec<Value> = keys.iter().zip(&strs).map(|(k, v)| json!({"key": k, "value": v})).collect();
        let pairs = serde_json::to_string(&pairs).unwrap();
        let shard = e2s("Shard::from_base64_strings", Shard::from_base64_strings(&strs, c.dim, c.n, c.bits, c.pb))?;
        let params = serde_json::to_string(shard.get_base_params()).unwrap();
        let good = [&list, &pairs, &params];
        for (i, g) in good.iter().enumerate() {
            let bytes = wrong_json(c.how, g, &mut rng);
            std::fs::write(&p, &bytes).unwrap();
            all(&format!("a file holding {}", short(&String::from_utf8_lossy(&bytes))), i == 0, i == 1, i == 2, path)?;
        }
        // each kind of file where another one is expected
        std::fs::write(&p, &list).unwrap();
        all("a list of elements", false, true, true, path)?;
        std::fs::write(&p, &pairs).unwrap();
        all("a list of pairs", true, false, true, path)?;
        std::fs::write(&p, &params).unwrap();
        all("parameters", true, true, false, path)?;
        // parameters with a field missing or of another type
        let v: Value = serde_json::from_str(&params).unwrap();
        if let Value::Object(o) = &v {
            let field = o.keys().nth(rng.below(o.len())).unwrap().clone();
            for to in [None, Some(json!("x")), Some(json!(-1)), Some(Value::Null), Some(json!({}))] {
                let mut o = o.clone();
                match &to {
                    None => drop(o.remove(&field)),
                    Some(x) => drop(o.insert(field.clone(), x.clone())),
                }
                std::fs::write(&p, Value::Object(o).to_string()).unwrap();
                all(&format!("parameters with {:?} for {}", to, field), false, false, true, path)?;
            }
        }
        // parameters with something wrong inside a list
        if let Value::Object(o) = &v {
            let lists: Vec<&String> = o.iter().filter(|(_, x)| x.is_array()).map(|(k, _)| k).collect();
            for field in lists {
                for to in [json!(1u64 << 32), json!(u64::MAX), json!(-1), json!(0.5), json!("7"), Value::Null, json!(true), json!({"a": 1})] {
                    let mut o = o.clone();
                    // the first list that holds no further lists
                    let mut at = o.get_mut(field).unwrap();
                    while at.as_array().map_or(false, |a| a.first().map_or(false, |x| x.is_array())) {
                        let a = at.as_array_mut().unwrap();
                        let i = rng.below(a.len());
                        at = &mut a[i];
                    }
                    let a = at.as_array_mut().unwrap();
                    if a.is_empty() {
                        continue;
                    }
                    let i = rng.below(a.len());
                    let to = if a.len() == 32 && to == json!(1u64 << 32) { json!(256) } else { to };
                    a[i] = to.clone();
                    std::fs::write(&p, Value::Object(o).to_string()).unwrap();
                    all(&format!("parameters with {} inside {}", to, field), false, false, true, path)?;
                    ctx.tag("parameters with a wrong number inside");
                }
            }
        }
        // pairs with a field missing or of another type
        let mut v: Vec<Value> = serde_json::from_str(&pairs).unwrap();
        let at = (c.which as usize * c.n) >> 16;
        let f = ["key", "value"][c.by % 2];
        match c.by % 3 {
            0 => drop(v[at].as_object_mut().unwrap().remove(f)),
            1 => v[at][f] = json!(5),
            _ => v[at][f] = Value::Null,
        }
        std::fs::write(&p, Value::Array(v).to_string()).unwrap();
        all(&format!("pairs of which {} has no proper {}", at, f), false, true, false, path)?;
        let mut v: Vec<Value> = serde_json::from_str(&list).unwrap();
        v[at] = [json!(1), Value::Null, json!(["AA"]), json!(true)][c.by % 4].clone();
        std::fs::write(&p, Value::Array(v).to_string()).unwrap();
        all(&format!("a list of which element {} is no string", at), true, false, false, path)?;
        // the well-formed ones load
        std::fs::write(&p, &list).unwrap();
        e2s("Shard::from_json_file", Shard::from_json_file(path, c.dim, c.n, c.bits, c.pb))?;
        std::fs::write(&p, &pairs).unwrap();
        e2s("KVShard::from_json_file", KVShard::from_json_file(path, c.dim, c.n, c.bits, c.pb))?;
        std::fs::write(&p, &params).unwrap();
        e2s("IndexParams::load", IndexParams::load(path))?;
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r?;
    ctx.tag(&format!("malformation {}", c.how % 12));
    ctx.nt();
    Ok(())
}
/// Queries of another length, rows outside of the database; both sides stay usable.
pub fn p16_queries(c: &BadCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed ^ 62);
    let (pb, elems) = fit_index_db(c.n, c.bits, c.pb, Fill::Random, c.seed);
    let shard = build_shard(&b64s(&elems), c.dim, c.bits, pb, false)?;
    let keys = keys256(c.n, Key256::Random, c.seed);
    let kvs = build_kv(Entry::New, &keys, None, &elems_kv(c), c.dim, c.bits, 8)?;
    let height = kvs.get_base_params().get_total_records();
    for (kw, h) in [(false, c.n), (true, height)] {
        let mut lens = vec![0, h - 1, h + 1, 2 * h, h + c.by, h / 2, h * (2 + c.by)];
        lens.push(rng.below(3 * h));
        for l in lens {
            if l == h {
                continue;
            }
            let v: Vec<u32> = (0..l).map(|_| if c.how % 2 == 0 { rng.next() as u32 } else { 0 }).collect();
            let q = make_query(&v)?;
            let what = format!("a query of {} coordinates for {} rows", l, h);
            if kw {
                must_fail(&format!("KVShard::respond, {}", what), || kvs.respond(&q))?;
            } else {
                must_fail(&format!("Shard::respond, {}", what), || shard.respond(&q))?;
            }
            ctx.tag("queries of another length");
        }
    }
    // rows outside
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let row = (c.which as usize * c.n) >> 16;
    let mut qp = e2s("generate_index_query_params", generate_index_query_params(&cp, bp))?;
    for r in [c.n, c.n + 1, c.n + c.by, usize::MAX, usize::MAX / 2, 1 << 32, (1usize << 32) + row, rng.next() as usize | 1 << 40, c.n * 2] {
        must_fail(&format!("generate_query({}) for {} rows", r, c.n), || qp.generate_query(r))?;
        ensure!(!qp.used, "parameters that refused row {} count as used", r);
        ctx.tag("rows outside");
    }
    // everything still works
    let q = qp.generate_query(row).map_err(|e| format!("generate_query({}) after refused rows: {}", row, e))?;
    let resp = decode(e2s("respond after refused queries", shard.respond(&q))?)?;
    check_index_answer(&qp, &resp, &elems[row], c.bits, pb, row).map_err(|e| format!("after refused queries: {}", e))?;
    // rows outside, asked of used parameters
    must_fail("generate_query of used parameters, row outside", || qp.generate_query(c.n + 5))?;
    check_index_answer(&qp, &resp, &elems[row], c.bits, pb, row).map_err(|e| format!("after refused queries: {}", e))?;
    kv_queries(&kvs, &keys, &elems_kv(c), &[row], c.bits, 8, c.seed).map_err(|e| format!("after refused queries: {}", e))?;
    ctx.nt();
    Ok(())
}
/// A common matrix or a response of another size than the parameters say.
pub fn p16_mismatch(c: &BadCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed ^ 63);
    let (pb, elems) = fit_index_db(c.n, c.bits, c.pb, Fill::Random, c.seed);
    let shard = build_shard(&b64s(&elems), c.dim, c.bits, pb, false)?;
    let keys = keys256(c.n, Key256::Random, c.seed);
    let kvs = build_kv(Entry::New, &keys, None, &elems_kv(c), c.dim, c.bits, 8)?;
    let (ip, kp) = (shard.get_base_params(), kvs.get_base_params());
    let matrix = |rows: usize, cols: usize, rng: &mut Mix| -> Result<CommonParams, String> {
        let m: Vec<Vec<u32>> = (0..rows).map(|_| (0..cols).map(|_| rng.next() as u32).collect()).collect();
        e2s("making a common matrix", bincode::deserialize(&bincode::serialize(&m).unwrap()))
    };
    for (kw, h) in [(false, ip.get_total_records()), (true, kp.get_total_records())] {
        let d = c.dim;
        let shapes = [(h - 1, d), (h + c.by, d), (0, 0), (h, d + c.by), (h, d - 1), (h / 2, d), (1 + rng.below(2 * h), 1 + rng.below(2 * d)), (d, h)];
        for (rows, cols) in shapes {
            if (rows, cols) == (h, d) {
                continue;
            }
            let cp = matrix(rows, cols, &mut rng)?;
            let what = format!("a common matrix of {} x {} for {} rows and dimension {}", rows, cols, h, d);
            if kw {
                must_fail(&format!("generate_kv_query_params, {}", what), || generate_kv_query_params(&cp, kp))?;
            } else {
                must_fail(&format!("generate_index_query_params, {}", what), || generate_index_query_params(&cp, ip))?;
            }
            ctx.tag("common matrices of another size");
        }
        // one row of another length
        let mut m: Vec<Vec<u32>> = vec![vec![1; d]; h];
        let at = rng.below(h);
        if c.how % 2 == 0 { m[at].push(1) } else { m[at].pop().map(|_| ()).unwrap_or(()) };
        let cp: CommonParams = e2s("making a common matrix", bincode::deserialize(&bincode::serialize(&m).unwrap()))?;
        let what = format!("row {} of {} has {} instead of {} columns", at, h, m[at].len(), d);
        if kw {
            must_fail(&format!("generate_kv_query_params, {}", what), || generate_kv_query_params(&cp, kp))?;
        } else {
            must_fail(&format!("generate_index_query_params, {}", what), || generate_index_query_params(&cp, ip))?;
        }
    }
    // too few chunks for the fallible parsers of the keyword variant
    let cp = CommonParams::from(kp);
    let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp, kp))?;
    let i = (c.which as usize * c.n) >> 16;
    let q = e2s("generate_query", qp.generate_query(&keys[i]))?;
    let resp = decode(e2s("respond", kvs.respond(&q))?)?;
    let full = resp.as_slice().to_vec();
    for l in [0, full.len() - 1, full.len() / 2, rng.below(full.len())] {
        let cut: Response = e2s("making a response", bincode::deserialize(&bincode::serialize(&full[..l].to_vec()).unwrap()))?;
        let what = format!("a response of {} chunks instead of {}", l, full.len());
        must_fail(&format!("parse_resp_as_row, {}", what), || qp.parse_resp_as_row(&cut, &keys[i]))?;
        must_fail(&format!("parse_resp_as_bytes, {}", what), || qp.parse_resp_as_bytes(&cut, &keys[i]))?;
        must_fail(&format!("parse_resp_as_base64, {}", what), || qp.parse_resp_as_base64(&cut, &keys[i]))?;
        ctx.tag("too short responses");
    }
    check_kv_answer(&qp, &resp, &keys[i], &elems_kv(c)[i], c.bits, 8, "after refused responses")?;
    kv_queries(&kvs, &keys, &elems_kv(c), &[i], c.bits, 8, c.seed).map_err(|e| format!("after refused matrices: {}", e))?;
    ctx.nt();
    Ok(())
}
fn elems_kv(c: &BadCase) -> Vec<Vec<u8>> {
    elements(c.n, c.bits, 8, Fill::Random, c.seed ^ 1)
}
pub fn p16_property() -> Property {
    Property {
        id: "P16",
        rule: "A case is a well-formed database with one fault in it: an element or value that is not base64 (eleven ways, among them left-over bits), too short or empty at a random place; too few elements, differing counts, no pairs, a pair with too few chunks; a missing, unreadable or malformed file for each loader (twelve kinds of content, fields missing or of another type, one kind of file for another); queries of other lengths and rows outside; common matrices of another size and keyword responses with too few chunks. Every fallible operation that receives it has to return an error without panicking, the fault-free twin has to be accepted, and the objects that refused are used afterwards. Non-trivial: every case (each holds a fault).",
        subs: vec![
            Sub::new("elements", 30000, 600000, bad_strat, p16_elements).boxed(),
            Sub::new("counts", 15000, 300000, bad_strat, p16_counts).boxed(),
            Sub::new("files", 15000, 300000, bad_strat, p16_files).boxed(),
            Sub::new("queries", 20000, 400000, bad_strat, p16_queries).boxed(),
            Sub::new("mismatch", 10000, 200000, bad_strat, p16_mismatch).boxed(),
        ],
    }
}

