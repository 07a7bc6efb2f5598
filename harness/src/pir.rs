//! P01, P02, P18: whole protocol runs.
use crate::core::*;
use crate::gen::*;

use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, KVDatabase, KeyValue};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub type IdxQP = QueryParams<IndexDatabase, EmptyAuxParams>;
pub type KvQP = QueryParams<KVDatabase, keyword_pir_lwe::db::FilterParams>;

pub fn decode(r: Vec<u8>) -> Result<Response, String> {
    e2s("deserialising the response", bincode::deserialize::<Response>(&r))
}
pub fn work_dim(dim: usize, m: usize, width: usize, budget: usize) -> usize {
    dim.min((budget / (m.max(1) * (width + 1))).max(1))
}
/// A path in this process's scratch directory.
pub fn scratch(name: &str) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = scratch_dir();
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{}-{}", N.fetch_add(1, Ordering::Relaxed), name))
}
pub fn scratch_dir() -> std::path::PathBuf {
    std::env::temp_dir().join(format!("chalamet-verif-{}", std::process::id()))
}

// ---- index -------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IdxCase {
    pub m: usize,
    pub bits: usize,
    pub want_pb: usize,
    pub dim: usize,
    pub fill: Fill,
    pub seed: u64,
    pub queries: usize,
    pub from_file: bool,
}
pub fn idx_strat(
    m: (usize, usize),
    bits: (usize, usize),
    dim: (usize, usize),
    queries: usize,
) -> BoxedStrategy<IdxCase> {
    (
        sized(m.0, m.1),
        sized(bits.0, bits.1),
        prop_oneof![2 => 1usize..=13, 1 => 1usize..=31],
        sized(dim.0, dim.1),
        fill(),
        any::<u64>(),
        1..=queries,
        proptest::bool::weighted(0.1),
    )
        .prop_map(|(m, bits, want_pb, dim, fill, seed, queries, from_file)| IdxCase {
            m,
            bits,
            want_pb,
            dim,
            fill,
            seed,
            queries,
            from_file,
        })
        .boxed()
}
/// As many rows as LWE dimensions and as chunks per element.
pub fn square_idx(max: usize, queries: usize) -> BoxedStrategy<IdxCase> {
    (idx_strat((1, max), (1, 2), (1, 2), queries), 1usize..=8, 0u8..3)
        .prop_map(|(mut c, pb, which)| {
            c.want_pb = pb;
            c.bits = if which == 0 { c.bits } else { c.m * pb };
            c.dim = if which == 1 { c.dim } else { c.m };
            c
        })
        .boxed()
}
pub struct IdxSetup {
    pub pb: usize,
    pub elems: Vec<Vec<u8>>,
    pub strs: Vec<String>,
    pub shard: Shard,
    pub dim: usize,
    pub width: usize,
}
pub fn build_shard(
    strs: &[String],
    dim: usize,
    bits: usize,
    pb: usize,
    from_file: bool,
) -> Result<Shard, String> {
    if from_file {
        let p = scratch("db.json");
        let style = (strs.len() + bits + dim) % 6;
        std::fs::write(&p, json_text(&serde_json::json!(strs), style as u8)).unwrap();
        let s = Shard::from_json_file(p.to_str().unwrap(), dim, strs.len(), bits, pb);
        let _ = std::fs::remove_file(&p);
        e2s("Shard::from_json_file", s)
    } else {
        e2s("Shard::from_base64_strings", Shard::from_base64_strings(strs, dim, strs.len(), bits, pb))
    }
}
pub fn setup_idx(c: &IdxCase, budget: usize) -> Result<IdxSetup, String> {
    let (pb, elems) = fit_index_db(c.m, c.bits, c.want_pb, c.fill, c.seed);
    let width = chunks(c.bits, pb);
    let dim = work_dim(c.dim, c.m, width, budget);
    let strs = b64s(&elems);
    let shard = build_shard(&strs, dim, c.bits, pb, c.from_file)?;
    Ok(IdxSetup { pb, elems, strs, shard, dim, width })
}
/// Up to n rows: the first, the last, and random ones.
pub fn pick_rows(m: usize, n: usize, seed: u64) -> Vec<usize> {
    if m <= n + 4 {
        return (0..m).collect();
    }
    let mut rng = Mix::new(seed ^ 0x51);
    let mut v = vec![m - 1, 0];
    while v.len() < n + 2 {
        v.push(rng.below(m));
    }
    v.truncate(n.max(1));
    v
}
pub fn check_index_answer(qp: &IdxQP, resp: &Response, elem: &[u8], bits: usize, pb: usize, row: usize) -> Res {
    ensure_eq!(qp.parse_resp_as_row(resp), chunk_row(elem, bits, pb), "chunks parsed for row {} (width {})", row, pb);
    ensure_eq!(qp.parse_resp_as_bytes(resp), elem.to_vec(), "bytes parsed for row {} (width {})", row, pb);
    ensure_eq!(qp.parse_resp_as_base64(resp), b64(elem), "base64 parsed for row {} (width {})", row, pb);
    Ok(())
}
pub fn p01(c: &IdxCase, ctx: &mut Ctx) -> Res {
    p01_with(c, ctx, 40_000_000)
}
/// With the dimension as it is, however large the matrix.
pub fn p01_full(c: &IdxCase, ctx: &mut Ctx) -> Res {
    p01_with(c, ctx, usize::MAX)
}
fn p01_with(c: &IdxCase, ctx: &mut Ctx, budget: usize) -> Res {
    let s = setup_idx(c, budget)?;
    let bp = s.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let rows = pick_rows(c.m, c.queries, c.seed);
    // all parameters first, then queries, responses and parsing in different
    // orders, so that nothing may depend on the order of the steps
    let mut rng = Mix::new(c.seed ^ 0x77);
    let mut runs: Vec<(usize, IdxQP)> = Vec::new();
    for r in &rows {
        runs.push((*r, e2s("generate_index_query_params", generate_index_query_params(&cp, bp))?));
    }
    rng.shuffle(&mut runs);
    let mut asked = Vec::new();
    for (r, mut qp) in runs {
        let q = e2s(&format!("generate_query({})", r), qp.generate_query(r))?;
        asked.push((r, qp, q));
    }
    rng.shuffle(&mut asked);
    let mut answered = Vec::new();
    for (r, qp, q) in asked {
        let resp = decode(e2s("respond", s.shard.respond(&q))?)?;
        answered.push((r, qp, resp));
    }
    rng.shuffle(&mut answered);
    for (r, qp, resp) in &answered {
        check_index_answer(qp, resp, &s.elems[*r], c.bits, s.pb, *r)?;
    }
    ctx.tag_if(c.bits % s.pb == 0, "width divides element size");
    ctx.tag_if(c.bits % 8 != 0, "element size not a multiple of 8");
    ctx.tag_if(s.pb > c.bits, "chunk wider than the element");
    ctx.tag_if(s.pb >= 14, "width >= 14");
    ctx.tag_if(c.m == 1, "one row");
    ctx.tag_if(s.dim == 1, "dimension 1");
    ctx.tag_if(s.dim >= 256, "dimension >= 256");
    ctx.tag_if(c.m > 4096, "more than 4096 rows");
    ctx.tag_if(s.width > 256, "more than 256 chunks");
    ctx.tag_n("queries answered", rows.len() as u64);
    if c.m >= 2 && rows.iter().any(|r| s.elems[*r] != s.elems[(*r + 1) % c.m]) {
        ctx.nt();
    }
    Ok(())
}
/// One server that serves for long, and one client that asks often.
pub fn p01_long(c: &IdxCase, ctx: &mut Ctx) -> Res {
    let s = setup_idx(c, 200)?;
    let bp = s.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut rng = Mix::new(c.seed ^ 0x10f9);
    let rounds = 66_000;
    for k in 0..rounds {
        let row = rng.below(c.m);
        let mut qp = e2s("generate_index_query_params", generate_index_query_params(&cp, bp))?;
        let q = e2s("generate_query", qp.generate_query(row))?;
        let resp = decode(e2s("respond", s.shard.respond(&q))?)?;
        ensure_eq!(qp.parse_resp_as_bytes(&resp), s.elems[row], "bytes parsed for row {} in round {} with the same server", row, k);
    }
    ctx.tag_n("queries answered", rounds);
    if c.m >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p02_long(c: &KvCase, ctx: &mut Ctx) -> Res {
    let s = setup_kv(c, 500)?;
    let bp = s.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut rng = Mix::new(c.seed ^ 0x10f9);
    let rounds = 66_000;
    for k in 0..rounds {
        let i = rng.below(c.n);
        let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp, bp))?;
        let q = e2s("generate_query", qp.generate_query(&s.keys[i]))?;
        let resp = decode(e2s("respond", s.shard.respond(&q))?)?;
        let got = e2s("parse_resp_as_bytes", qp.parse_resp_as_bytes(&resp, &s.keys[i]))?;
        ensure_eq!(got, s.elems[i], "bytes parsed for pair {} in round {} with the same server", i, k);
    }
    ctx.tag_n("queries answered", rounds);
    if c.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
/// Element size k * pb + r, for elements too large to be stored here.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShapeCase {
    pub pb: usize,
    pub full: u64,
    pub rest: usize,
}
fn shape_strat() -> BoxedStrategy<ShapeCase> {
    (1usize..=31)
        .prop_flat_map(|pb| {
            (
                Just(pb),
                (0u32..40).prop_flat_map(|e| (1u64 << e)..(2u64 << e)),
                prop_oneof![Just(0), Just(1 % pb), Just(pb - 1), 0..pb],
            )
        })
        .prop_map(|(pb, full, rest)| ShapeCase { pb, full, rest })
        .boxed()
}
/// The number of chunks of an element of any size.
fn shape<D: DatabaseMatrix>(c: &ShapeCase, ctx: &mut Ctx) -> Res {
    let want = c.full as usize + (c.rest > 0) as usize;
    let bits = c.full as usize * c.pb + c.rest;
    ensure_eq!(D::get_row_width(bits, c.pb), want, "chunks of {} bits in an element of {} bits", c.pb, bits);
    ctx.tag(if c.rest == 0 { "width divides size" } else { "width does not divide size" });
    if c.full > 1 {
        ctx.nt();
    }
    Ok(())
}
pub fn p01_property() -> Property {
    Property {
        id: "P01",
        rule: "A case is a database (rows, element bits, contents, chunk width reduced until the noise fits at ten sigma), an LWE dimension, entropy and a set of rows (first, last, random); every row is queried and parsed three ways. Non-trivial: at least two rows, and a queried element differs from its neighbour.",
        subs: vec![
            Sub::new("small", 20000, 600000, || idx_strat((1, 40), (1, 300), (1, 64), 6), p01).boxed(),
            Sub::new("medium", 3000, 60000, || idx_strat((1, 2000), (1, 600), (1, 300), 6), p01).boxed(),
            Sub::new("tall", 200, 4000, || idx_strat((4097, 70_000), (1, 40), (1, 12), 4), p01).boxed(),
            Sub::new("wide", 800, 16000, || idx_strat((1, 12), (2000, 40_000), (1, 24), 3), p01).boxed(),
            Sub::new("deep", 1200, 24000, || idx_strat((1, 300), (1, 100), (513, 2048), 3), p01).boxed(),
            // every width up to 31 with rows that fit it, many runs: what is
            // rare for a wide chunk happens often for a narrow one
            Sub::new("narrow", 4000, 80000, || idx_strat((1, 64), (1, 64), (1, 32), 60), p01).boxed(),
            Sub::new("huge", 8, 200, || idx_strat((70_000, 1_100_000), (1, 40), (1, 8), 2), p01).workers(4).boxed(),
            // the parameters that the Makefile runs with, but for the size
            // elements as large as the Makefile configures them, and more
            Sub::new("giant", 24, 480, || idx_strat((1, 6), (40_000, 1_200_000), (1, 4), 2), p01).workers(6).boxed(),
            // beyond what a 32-bit float counts exactly
            Sub::new("enormous", 4, 20, || idx_strat((2, 2), ((1 << 24) - 9, (1 << 24) + 4_000_000), (1, 1), 1), p01).workers(2).boxed(),
            Sub::new("shapes", 40000, 800000, shape_strat, shape::<IndexDatabase>).boxed(),
            Sub::new("square", 3000, 60000, || square_idx(60, 4), p01).boxed(),
            Sub::new("long-lived", 16, 160, || idx_strat((1, 4), (1, 24), (1, 4), 1), p01_long).boxed(),
            Sub::new("together", 1200, 24000, || several(idx_strat((1, 200), (1, 300), (1, 24), 3)), |c, ctx| together(c, 3, ctx, p01)).workers(3).boxed(),
            Sub::new("standard", 3, 60, || idx_strat((1 << 13, 1 << 16), (1, 60), (1774, 1774), 2), p01_full).workers(2).boxed(),
        ],
    }
}

// ---- keyword -----------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Keys {
    Str(StrKeys),
    K256(Key256),
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Entry {
    New,
    Strings,
    File,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KvCase {
    pub n: usize,
    pub bits: usize,
    pub want_pb: usize,
    pub dim: usize,
    pub fill: Fill,
    pub keys: Keys,
    pub entry: Entry,
    pub seed: u64,
    pub queries: usize,
}
pub fn kv_strat(n: (usize, usize), bits: (usize, usize), dim: (usize, usize), queries: usize) -> BoxedStrategy<KvCase> {
    (
        sized(n.0, n.1),
        sized(bits.0, bits.1),
        prop_oneof![3 => 8usize..=13, 1 => Just(8usize)],
        sized(dim.0, dim.1),
        fill(),
        prop_oneof![str_keys().prop_map(Keys::Str), key256().prop_map(Keys::K256)],
        prop_oneof![3 => Just(Entry::New), 3 => Just(Entry::Strings), 1 => Just(Entry::File)],
        any::<u64>(),
        1..=queries,
    )
        .prop_map(|(n, bits, want_pb, dim, fill, keys, entry, seed, queries)| KvCase {
            n,
            bits,
            want_pb,
            dim,
            fill,
            keys,
            entry,
            seed,
            queries,
        })
        .boxed()
}
pub struct KvSetup {
    pub pb: usize,
    pub width: usize,
    pub dim: usize,
    pub keys: Vec<[u64; 4]>,
    pub strs: Option<Vec<String>>,
    pub elems: Vec<Vec<u8>>,
    pub shard: KVShard,
}
pub fn kv_inputs(c: &KvCase, pb: usize) -> (Vec<[u64; 4]>, Option<Vec<String>>, Vec<Vec<u8>>) {
    let elems = elements(c.n, c.bits, pb, c.fill, c.seed);
    match c.keys {
        Keys::Str(k) => {
            let s = string_keys(c.n, k, c.seed ^ 0xabc);
            let keys = s.iter().map(|s| crate::sha::words(&crate::sha::sha256(s.as_bytes()))).collect();
            (keys, Some(s), elems)
        }
        Keys::K256(k) => (keys256(c.n, k, c.seed ^ 0xabc), None, elems),
    }
}
/// Builds a server through one of the entry points (string keys), or from
/// pairs (other keys).
pub fn build_kv(
    entry: Entry,
    keys: &[[u64; 4]],
    strs: Option<&[String]>,
    elems: &[Vec<u8>],
    dim: usize,
    bits: usize,
    pb: usize,
) -> Result<KVShard, String> {
    let n = keys.len();
    let strs = match strs {
        None => {
            let kvs: Vec<KeyValue> =
                keys.iter().zip(elems).map(|(k, e)| KeyValue { key: *k, value: chunk_row(e, bits, pb) }).collect();
            return e2s("KVShard::new", KVShard::new(&kvs, dim, n, bits, pb));
        }
        Some(s) => s,
    };
    let vals = b64s(elems);
    match entry {
        Entry::New => {
            let mut kvs = Vec::new();
            for (k, v) in strs.iter().zip(&vals) {
                kvs.push(e2s("KeyValue::from_base64_strings", KeyValue::from_base64_strings(k, v, bits, pb))?);
            }
            e2s("KVShard::new", KVShard::new(&kvs, dim, n, bits, pb))
        }
        Entry::Strings => {
            e2s("KVShard::from_base64_strings", KVShard::from_base64_strings(strs, &vals, dim, n, bits, pb))
        }
        Entry::File => {
            let list: Vec<_> =
                strs.iter().zip(&vals).map(|(k, v)| serde_json::json!({"key": k, "value": v})).collect();
            let p = scratch("kv.json");
            let style = (n + bits + dim + strs[0].len()) % 6;
            std::fs::write(&p, json_text(&serde_json::json!(list), style as u8)).unwrap();
            let s = KVShard::from_json_file(p.to_str().unwrap(), dim, n, bits, pb);
            let _ = std::fs::remove_file(&p);
            e2s("KVShard::from_json_file", s)
        }
    }
}
pub fn setup_kv(c: &KvCase, budget: usize) -> Result<KvSetup, String> {
    let pb = fit_kv_pb(c.n, c.want_pb);
    let width = chunks(c.bits, pb);
    let h = kv_height_bound(c.n) as usize;
    let dim = work_dim(c.dim, h, width, budget);
    let (keys, strs, elems) = kv_inputs(c, pb);
    let shard = build_kv(c.entry, &keys, strs.as_deref(), &elems, dim, c.bits, pb)?;
    Ok(KvSetup { pb, width, dim, keys, strs, elems, shard })
}
pub fn check_kv_answer(
    qp: &KvQP,
    resp: &Response,
    key: &[u64; 4],
    elem: &[u8],
    bits: usize,
    pb: usize,
    what: &str,
) -> Res {
    let row = e2s("parse_resp_as_row", qp.parse_resp_as_row(resp, key))?;
    ensure_eq!(row, chunk_row(elem, bits, pb), "chunks parsed for {} (width {})", what, pb);
    let bytes = e2s("parse_resp_as_bytes", qp.parse_resp_as_bytes(resp, key))?;
    ensure_eq!(bytes, elem.to_vec(), "bytes parsed for {} (width {})", what, pb);
    let s = e2s("parse_resp_as_base64", qp.parse_resp_as_base64(resp, key))?;
    ensure_eq!(s, b64(elem), "base64 parsed for {} (width {})", what, pb);
    Ok(())
}
pub fn kv_queries(
    shard: &KVShard,
    keys: &[[u64; 4]],
    elems: &[Vec<u8>],
    which: &[usize],
    bits: usize,
    pb: usize,
    seed: u64,
) -> Res {
    let bp = shard.get_base_params();
    let cp = CommonParams::from(bp);
    let mut rng = Mix::new(seed ^ 0x99);
    let mut runs = Vec::new();
    for i in which {
        runs.push((*i, e2s("generate_kv_query_params", generate_kv_query_params(&cp, bp))?));
    }
    rng.shuffle(&mut runs);
    let mut asked = Vec::new();
    for (i, mut qp) in runs {
        let q = e2s("generate_query", qp.generate_query(&keys[i]))?;
        asked.push((i, qp, q));
    }
    rng.shuffle(&mut asked);
    let mut answered = Vec::new();
    for (i, qp, q) in asked {
        answered.push((i, qp, decode(e2s("respond", shard.respond(&q))?)?));
    }
    rng.shuffle(&mut answered);
    for (i, qp, resp) in &answered {
        check_kv_answer(qp, resp, &keys[*i], &elems[*i], bits, pb, &format!("pair {} of {}", i, keys.len()))?;
    }
    Ok(())
}
pub fn p02(c: &KvCase, ctx: &mut Ctx) -> Res {
    p02_with(c, ctx, 30_000_000)
}
pub fn p02_full(c: &KvCase, ctx: &mut Ctx) -> Res {
    p02_with(c, ctx, usize::MAX)
}
/// Numbers of pairs at which the filter has little room to spare.
pub const TIGHT: [(usize, usize); 8] = [
    (3480, 3560),
    (3535, 3550),
    (11_440, 11_522),
    (12_320, 12_375),
    (13_170, 13_226),
    (37_400, 37_458),
    (37_440, 37_458),
    (125_800, 126_000),
];
pub fn tight_sizes(up_to: usize) -> BoxedStrategy<usize> {
    let v: Vec<_> = TIGHT.iter().filter(|t| t.1 <= up_to).map(|t| (t.0..=t.1).boxed()).collect();
    proptest::strategy::Union::new(v).boxed()
}
fn p02_with(c: &KvCase, ctx: &mut Ctx, budget: usize) -> Res {
    let s = setup_kv(c, budget)?;
    let which = pick_rows(c.n, c.queries, c.seed);
    kv_queries(&s.shard, &s.keys, &s.elems, &which, c.bits, s.pb, c.seed)?;
    ctx.tag_if(c.bits % s.pb == 0, "width divides element size");
    ctx.tag_if(c.bits % 8 != 0, "element size not a multiple of 8");
    ctx.tag_if(s.pb > c.bits, "chunk wider than the element");
    ctx.tag_if(c.n == 1, "one pair");
    ctx.tag_if(c.n > 4096, "more than 4096 pairs");
    ctx.tag_if(s.width > 256, "more than 256 chunks");
    ctx.tag_if(s.strs.is_some() && c.entry == Entry::Strings, "from_base64_strings");
    ctx.tag_if(s.strs.is_some() && c.entry == Entry::File, "from_json_file");
    ctx.tag_if(s.strs.is_none(), "keys given directly");
    ctx.tag_n("queries answered", which.len() as u64);
    if c.n >= 2 && which.iter().any(|r| s.elems[*r] != s.elems[(*r + 1) % c.n]) {
        ctx.nt();
    }
    Ok(())
}
/// The same pairs in another order and through another entry point, and with
/// the other pairs' values changed: the same answers.
pub fn p02_meta(c: &KvCase, ctx: &mut Ctx) -> Res {
    let s = setup_kv(c, 4_000_000)?;
    let which = pick_rows(c.n, 2, c.seed);
    kv_queries(&s.shard, &s.keys, &s.elems, &which, c.bits, s.pb, c.seed)?;
    let mut rng = Mix::new(c.seed ^ 0x1234);
    let mut perm: Vec<usize> = (0..c.n).collect();
    rng.shuffle(&mut perm);
    let keys: Vec<_> = perm.iter().map(|i| s.keys[*i]).collect();
    let strs = s.strs.as_ref().map(|v| perm.iter().map(|i| v[*i].clone()).collect::<Vec<_>>());
    let mut elems: Vec<_> = perm.iter().map(|i| s.elems[*i].clone()).collect();
    // change the values of every pair that is not queried
    for (j, i) in perm.iter().enumerate() {
        if !which.contains(i) {
            elems[j] = element(j, c.bits, s.pb, Fill::Random, &mut rng);
        }
    }
    for entry in [Entry::New, Entry::Strings, Entry::File] {
        if strs.is_none() && entry != Entry::New {
            continue;
        }
        let shard = build_kv(entry, &keys, strs.as_deref(), &elems, s.dim, c.bits, s.pb)?;
        let now: Vec<usize> = which.iter().map(|w| perm.iter().position(|p| p == w).unwrap()).collect();
        kv_queries(&shard, &keys, &elems, &now, c.bits, s.pb, c.seed)?;
    }
    if c.n >= 3 {
        ctx.nt();
    }
    Ok(())
}
pub fn p02_property() -> Property {
    Property {
        id: "P02",
        rule: "A case is a set of pairs (string or raw 256-bit keys of a structured kind, values, element bits), a chunk width >= 8 whose noise fits at twelve sigma, an LWE dimension, an entry point and entropy; several keys are queried and parsed three ways; 'metamorphic' rebuilds the server from the permuted pairs through the other entry points. Non-trivial: at least two pairs (three for metamorphic), and a queried value differs from its neighbour.",
        subs: vec![
            Sub::new("small", 15000, 400000, || kv_strat((1, 40), (1, 300), (1, 48), 6), p02).boxed(),
            Sub::new("medium", 2000, 40000, || kv_strat((1, 1500), (1, 300), (1, 200), 6), p02).boxed(),
            Sub::new("tall", 120, 2400, || kv_strat((4097, 40_000), (1, 24), (1, 8), 4), p02).boxed(),
            Sub::new("wide", 500, 10000, || kv_strat((1, 12), (2000, 20_000), (1, 16), 3), p02).boxed(),
            Sub::new("deep", 600, 12000, || kv_strat((1, 100), (1, 60), (513, 2048), 3), p02).boxed(),
            Sub::new("metamorphic", 3000, 60000, || kv_strat((1, 120), (1, 150), (1, 24), 3), p02_meta).boxed(),
            Sub::new(
                "tight sizes",
                60,
                1200,
                || (tight_sizes(40_000), kv_strat((1, 2), (1, 24), (1, 4), 4)).prop_map(|(n, mut c)| { c.n = n; c }).boxed(),
                p02,
            )
            .boxed(),
            Sub::new("huge", 4, 100, || kv_strat((70_000, 1_000_000), (1, 16), (1, 4), 2), p02).workers(4).boxed(),
            Sub::new("giant", 10, 200, || kv_strat((1, 6), (40_000, 1_200_000), (1, 3), 2), p02).workers(6).boxed(),
            Sub::new("enormous", 4, 20, || kv_strat((2, 2), ((1 << 24) - 9, (1 << 24) + 2_000_000), (1, 1), 1), p02).workers(2).boxed(),
            Sub::new("shapes", 40000, 800000, shape_strat, shape::<KVDatabase>).boxed(),
            Sub::new("long-lived", 16, 160, || kv_strat((1, 4), (1, 24), (1, 4), 1), p02_long).boxed(),
            Sub::new("together", 1000, 20000, || several(kv_strat((1, 200), (1, 200), (1, 24), 3)), |c, ctx| together(c, 3, ctx, p02)).workers(3).boxed(),
            Sub::new("standard", 2, 40, || kv_strat((1 << 12, 1 << 15), (1, 40), (1774, 1774), 2), p02_full).workers(2).boxed(),
        ],
    }
}

// ---- P18: any key ------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyKeyCase {
    pub db: KvCase,
    pub probes: usize,
    pub probe: Key256,
}
fn p18_strat(n: (usize, usize), bits: (usize, usize)) -> BoxedStrategy<AnyKeyCase> {
    (kv_strat(n, bits, (1, 24), 2), 4usize..40, key256())
        .prop_map(|(db, probes, probe)| AnyKeyCase { db, probes, probe })
        .boxed()
}
pub fn p18(c: &AnyKeyCase, ctx: &mut Ctx) -> Res {
    let s = setup_kv(&c.db, 4_000_000)?;
    let bp = s.shard.get_base_params();
    let cp = CommonParams::from(bp);
    let height = bp.get_total_records();
    ensure_eq!(height, s.shard.get_db().get_matrix_height(), "advertised and actual height");
    let client_fp = bp.get_filter_params();
    let server_fp = s.shard.get_db().get_filter_params();
    let mut rng = Mix::new(c.db.seed ^ 0x18);
    // absent keys of a structured kind, near-copies of stored keys, stored keys
    let mut probes = keys256(c.probes, c.probe, c.db.seed ^ 0x5150);
    for _ in 0..c.probes / 2 {
        let mut k = s.keys[rng.below(c.db.n)];
        match rng.below(4) {
            0 => k[rng.below(4)] ^= 1 << rng.below(64),
            1 => k.swap(0, 1 + rng.below(3)),
            2 => k[rng.below(4)] = 0,
            _ => k.rotate_left(1 + rng.below(3)),
        }
        probes.push(k);
    }
    for k in [[0u64; 4], [u64::MAX; 4], [1, 0, 0, 0], [0, 0, 0, u64::MAX]] {
        probes.push(k);
    }
    probes.push(s.keys[0]);
    let delta = (1u64 << (32 - s.pb)) as u32;
    let modulus = 1u32 << s.pb;
    let zero = diagonal(height, s.dim)?;
    let mut absent = 0;
    // another server for the same keys, asked in turns with the first one
    let s2 = setup_kv(&c.db, 4_000_000)?;
    let bp2 = s2.shard.get_base_params();
    let cp2 = CommonParams::from(bp2);
    let client_fp2 = bp2.get_filter_params();
    for i in 0..3.min(c.db.n) {
        probes.push(s.keys[(i * 7 + 1) % c.db.n]);
    }
    let before: Vec<_> = probes.iter().map(|k| client_fp.get_hash_evals(k)).collect();
    let before2: Vec<_> = probes.iter().map(|k| client_fp2.get_hash_evals(k)).collect();
    for ((k, a), b) in probes.iter().zip(&before).zip(&before2) {
        for (fp, want) in [(&client_fp, a), (&client_fp2, b), (&client_fp, a), (server_fp, a)] {
            ensure_eq!(&fp.get_hash_evals(k), want, "positions of key {:x?}, asked again between those for another server", k);
        }
    }
    for k in &probes {
        let stored = s.keys.iter().position(|x| x == k);
        absent += stored.is_none() as u64;
        let pos = client_fp.get_hash_evals(k);
        ensure_eq!(pos, server_fp.get_hash_evals(k), "positions of key {:x?} by client and by server", k);
        ensure_eq!(pos.len(), 3, "number of positions of key {:x?}", k);
        ensure!(pos.iter().all(|p| *p < height), "key {:x?} has position {:?} outside of {} rows", k, pos, height);
        ensure!(
            pos[0] != pos[1] && pos[0] != pos[2] && pos[1] != pos[2],
            "positions {:?} of key {:x?} are not distinct",
            pos,
            k
        );
        let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp, bp))?;
        let q = e2s("generate_query", qp.generate_query(k))?;
        ensure_eq!(q.as_slice().len(), height, "length of the query for key {:x?}", k);
        let resp = decode(e2s("respond", s.shard.respond(&q))?)?;
        let row = e2s("parse_resp_as_row", qp.parse_resp_as_row(&resp, k))?;
        ensure_eq!(row.len(), s.width, "chunks in the answer for key {:x?}", k);
        ensure!(row.iter().all(|x| *x < modulus), "answer {} for key {:x?} exceeds the modulus", short(&row), k);
        let bytes = e2s("parse_resp_as_bytes", qp.parse_resp_as_bytes(&resp, k))?;
        ensure_eq!(bytes.len(), elem_bytes(c.db.bits), "bytes in the answer for key {:x?}", k);
        let b = e2s("parse_resp_as_base64", qp.parse_resp_as_base64(&resp, k))?;
        ensure_eq!(b, b64(&bytes), "base64 of the answer for key {:x?}", k);
        if let Some(i) = stored {
            ensure_eq!(bytes, s.elems[i], "value of the stored key {:x?}", k);
            let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp2, bp2))?;
            let q = e2s("generate_query", qp.generate_query(k))?;
            let resp = decode(e2s("respond", s2.shard.respond(&q))?)?;
            let bytes = e2s("parse_resp_as_bytes", qp.parse_resp_as_bytes(&resp, k))?;
            ensure_eq!(bytes, s2.elems[i], "value of the stored key {:x?}, asked from another server after the first one", k);
        }
        // under a matrix of multiples of 16, query minus rounding factors is
        // small exactly if the query touches the three positions
        let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&zero, bp))?;
        let q = e2s("generate_query", qp.generate_query(k))?;
        for (j, x) in q.as_slice().iter().enumerate() {
            let v = if pos.contains(&j) { x.wrapping_sub(delta) } else { *x } as i32;
            ensure!(v.abs() <= 17, "query for key {:x?}, positions {:?}: coordinate {} is off by {}", k, pos, j, v);
        }
    }
    ctx.tag_n("absent keys asked for", absent);
    ctx.tag_n("keys asked for", probes.len() as u64);
    if absent > 0 {
        ctx.nt();
    }
    Ok(())
}
/// Common parameters whose row j is 16 times the unit vector j mod dim: a query
/// made with them shows secret and error in the clear.
pub fn diagonal(m: usize, dim: usize) -> Result<CommonParams, String> {
    let a: Vec<Vec<u32>> = (0..m)
        .map(|j| {
            let mut r = vec![0u32; dim];
            r[j % dim] = 16;
            r
        })
        .collect();
    e2s("making common parameters", bincode::deserialize(&bincode::serialize(&a).unwrap()))
}
pub fn p18_property() -> Property {
    Property {
        id: "P18",
        rule: "A case is a keyword database and a few dozen probe keys (structured, extreme, near-copies of stored keys by bit flips and word permutations, one stored key), each taken through a whole run. Non-trivial: at least one probed key is absent.",
        subs: vec![
            Sub::new("small", 8000, 160000, || p18_strat((1, 60), (1, 120)), p18).boxed(),
            Sub::new("medium", 800, 16000, || p18_strat((61, 5000), (1, 120)), p18).boxed(),
            Sub::new("large", 16, 320, || p18_strat((5001, 200_000), (1, 120)), p18).workers(6).boxed(),
            Sub::new("wide", 300, 6000, || p18_strat((1, 12), (1000, 20_000)), p18).boxed(),
            Sub::new("together", 600, 12000, || several(p18_strat((1, 60), (1, 60))), |c, ctx| together(c, 2, ctx, p18)).workers(3).boxed(),
            Sub::new("giant", 4, 80, || p18_strat((1, 6), (100_000, 1_000_000)), p18).workers(4).boxed(),
        ],
    }
}

// ---- P12: size of a keyword server's matrix -------------------------------

pub fn p12_keyword(c: &KvCase, ctx: &mut Ctx) -> Res {
    let s = setup_kv(c, 300_000)?;
    let limit = crate::filters::binary_fuse_limit(c.n);
    let bp = s.shard.get_base_params();
    let db = s.shard.get_db();
    ensure!(db.get_matrix_height() as f64 <= limit, "a matrix of {} rows for {} pairs, more than {}", db.get_matrix_height(), c.n, limit);
    ensure!(bp.get_total_records() as f64 <= limit, "{} advertised rows for {} pairs", bp.get_total_records(), c.n);
    ensure_eq!(db.get_row_width_self(), s.width, "columns of the matrix");
    if c.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p12_keyword_subs() -> Vec<Box<dyn SubCheck>> {
    vec![
        Sub::new("keyword server", 8000, 160000, || kv_strat((1, 400), (1, 60), (1, 2), 1), p12_keyword).boxed(),
        Sub::new("keyword server large", 150, 3000, || kv_strat((400, 40_000), (1, 24), (1, 2), 1), p12_keyword).boxed(),
        Sub::new("keyword server huge", 4, 80, || kv_strat((100_000, 600_000), (1, 8), (1, 2), 1), p12_keyword).workers(4).boxed(),
    ]
}

// ---- P20: entries of a keyword server's matrix -----------------------------

/// All pairs hold the same value, which the stored matrix does not show.
pub fn p20_keyword(c: &KvCase, ctx: &mut Ctx) -> Res {
    use crate::filters::{count_bytes, differing, judge_cells, nibbles};
    let keys = keys256(c.n, Key256::Random, c.seed);
    let value = elements(1, c.bits, c.want_pb, Fill::Random, c.seed).remove(0);
    let elems = vec![value; c.n];
    let pb = c.want_pb;
    let make = || build_kv(Entry::New, &keys, None, &elems, 1, c.bits, pb);
    let (a, b) = (make()?, make()?);
    let (a, b) = (a.get_db(), b.get_db());
    let width = a.get_row_width_self();
    for i in 0..width {
        let (x, y) = (a.get_row(i), b.get_row(i));
        let what = format!("column {} of the matrix for {} equal values (width {})", i, c.n, pb);
        for v in [&x, &y] {
            for (at, cells) in nibbles(v.iter().copied(), pb as u32) {
                judge_cells(&format!("{}, bits from {}", what, at), &cells)?;
                ctx.count(&format!("width {}, bits from {}", pb, at), &cells);
            }
        }
        count_bytes(ctx, &format!("width {}", pb), x.iter().chain(&y).copied(), pb as u32);
        // another seed: everything is as good as drawn again
        if x.len() == y.len() {
            differing(&what, &x, &y, x.len(), pb as u32)?;
        }
        if i > 0 {
            differing(&format!("two columns ({} and before) holding the same chunk", i), &x, &a.get_row(i - 1), x.len(), pb as u32)?;
        }
    }
    ctx.tag_n("entries", (width * a.get_matrix_height()) as u64);
    if c.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
fn p20_kv(n: (usize, usize), bits: (usize, usize)) -> BoxedStrategy<KvCase> {
    (kv_strat(n, bits, (1, 2), 1), 8usize..=31).prop_map(|(mut c, pb)| {
        c.want_pb = pb;
        c
    }).boxed()
}
pub fn p20_keyword_subs() -> Vec<Box<dyn SubCheck>> {
    use crate::filters::p20_finish;
    vec![
        Sub::new("keyword small", 20000, 400000, || p20_kv((1, 400), (1, 200)), p20_keyword).finish(p20_finish).boxed(),
        Sub::new("keyword medium", 200, 4000, || p20_kv((400, 20_000), (1, 60)), p20_keyword).finish(p20_finish).boxed(),
        Sub::new("keyword large", 8, 160, || p20_kv((20_000, 200_000), (1, 24)), p20_keyword).finish(p20_finish).workers(4).boxed(),
    ]
}
