//! P06 (responses), P07 (public parameters), P08 (ingestion), P10 (construction).
use crate::core::*;
use crate::gen::*;
use crate::pir::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::db::{IndexDatabase, IndexParams, KVParams};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

// ---- P06 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RespCase {
    pub kw: bool,
    pub db: KvCase,
    pub queries: Vec<(u8, u64)>,
    pub threads: usize,
}
fn resp_strat(m: (usize, usize), bits: (usize, usize), threads: usize) -> BoxedStrategy<RespCase> {
    (
        any::<bool>(),
        kv_strat(m, bits, (1, 6), 1),
        1usize..=31,
        proptest::collection::vec((0u8..16, any::<u64>()), 1..8),
        1..=threads,
    )
        .prop_map(|(kw, mut db, pb, queries, threads)| {
            if !kw {
                db.want_pb = pb;
            }
            RespCase { kw, db, queries, threads }
        })
        .boxed()
}
pub fn query_vec(n: usize, kind: u8, seed: u64) -> Vec<u32> {
    let mut rng = Mix::new(seed);
    match kind % 8 {
        0 => (0..n).map(|_| rng.next() as u32).collect(),
        1 => vec![u32::MAX; n],
        2 => {
            let mut v = vec![0; n];
            v[rng.below(n)] = 1;
            v
        }
        3 => vec![0; n],
        4 => {
            let mut v = vec![0; n];
            v[n - 1] = rng.next() as u32 | 1;
            v
        }
        5 => (0..n).map(|_| 1 << (rng.next() % 32)).collect(),
        6 => vec![0x8000_0000; n],
        _ => {
            let mut v = vec![0; n];
            v[0] = u32::MAX;
            v
        }
    }
}
/// A query like the one before it, as weak checksums see it.
fn derived_query(prev: &[u32], kind: u8, seed: u64) -> Vec<u32> {
    let n = prev.len();
    let mut rng = Mix::new(seed);
    let mut v = prev.to_vec();
    let (i, j) = (rng.below(n), rng.below(n));
    match kind % 8 {
        0 => v.swap(i, j),
        1 => {
            let d = rng.next() as u32;
            v[i] = v[i].wrapping_add(d);
            v[j] = v[j].wrapping_sub(d);
        }
        2 => v.iter_mut().for_each(|x| *x = x.wrapping_neg()),
        3 => v.reverse(),
        4 => v[i] ^= 1 << (rng.next() % 32),
        5 => v[n - 1] = rng.next() as u32,
        6 => v.rotate_left(1 % n),
        _ => {
            let d = rng.next() as u32;
            v[i] ^= d;
            v[j] ^= d;
        }
    }
    v
}
pub fn make_query(v: &[u32]) -> Result<Query, String> {
    e2s("making a query", bincode::deserialize(&bincode::serialize(&v.to_vec()).unwrap()))
}
enum Srv {
    I(Shard),
    K(KVShard),
}
impl Srv {
    fn respond(&self, q: &Query) -> Result<Vec<u8>, String> {
        match self {
            Srv::I(s) => e2s("respond", s.respond(q)),
            Srv::K(s) => e2s("respond", s.respond(q)),
        }
    }
    fn state(&self) -> Vec<u8> {
        match self {
            Srv::I(s) => bincode::serialize(s).unwrap(),
            Srv::K(s) => bincode::serialize(s).unwrap(),
        }
    }
}
pub fn p06(c: &RespCase, ctx: &mut Ctx) -> Res {
    let d = &c.db;
    let build = |d: &KvCase| -> Result<_, String> {
        Ok(if c.kw {
            let s = setup_kv(d, 2_000_000)?;
            let db = s.shard.get_db();
            let cols: Vec<Vec<u32>> = (0..s.width).map(|i| db.get_row(i)).collect();
            (Srv::K(s.shard), cols, s.pb)
        } else {
            let pb = d.want_pb;
            let elems = elements(d.n, d.bits, pb, d.fill, d.seed);
            let shard = build_shard(&b64s(&elems), work_dim(d.dim, d.n, chunks(d.bits, pb), 4_000_000), d.bits, pb, false)?;
            let cols: Vec<Vec<u32>> = (0..chunks(d.bits, pb)).map(|i| column(&elems, i, pb)).collect();
            (Srv::I(shard), cols, pb)
        })
    };
    let (srv, cols, pb) = build(d)?;
    let h = cols[0].len();
    let before = srv.state();
    // another server of the same shape is asked in between
    let other = if h <= 200 {
        let mut d2 = d.clone();
        d2.seed ^= 0x5a5a;
        d2.fill = Fill::Random;
        Some(build(&d2)?)
    } else {
        None
    };
    let mut asked: Vec<(Query, Vec<u8>)> = Vec::new();
    for (kind, seed) in &c.queries {
        let v = match asked.last() {
            Some((q, _)) if *kind >= 8 => derived_query(q.as_slice(), *kind, *seed),
            _ => query_vec(h, *kind, *seed),
        };
        let q = make_query(&v)?;
        ensure_eq!(q.as_slice(), &v[..], "query after transfer");
        let raw = srv.respond(&q)?;
        let resp = decode(raw.clone())?;
        let want: Vec<u32> = cols.iter().map(|col| dot(&v, col)).collect();
        ensure_eq!(resp.as_slice().len(), want.len(), "coordinates of the response");
        for i in 0..want.len() {
            ensure_eq!(
                resp.as_slice()[i],
                want[i],
                "coordinate {} of {} of the response (height {}, width {}) to query kind {}",
                i,
                want.len(),
                h,
                pb,
                kind
            );
        }
        if let Some((srv2, cols2, _)) = &other {
            // (keyword servers may have drawn other sizes)
            if cols2[0].len() == h {
                let resp = decode(srv2.respond(&q)?)?;
                let want: Vec<u32> = cols2.iter().map(|col| dot(&v, col)).collect();
                ensure_eq!(resp.as_slice(), &want[..], "response of a second server to the same query");
            }
        }
        asked.push((q, raw));
    }
    // again, in another order: the same bytes
    for (q, raw) in asked.iter().rev() {
        ensure!(srv.respond(q)? == *raw, "a repeated query was answered differently");
    }
    ensure!(srv.state() == before, "answering queries changed the server's state");
    if c.threads > 1 {
        let bad = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..c.threads)
                .map(|t| {
                    let (srv, asked) = (&srv, &asked);
                    sc.spawn(move || {
                        quiet_panics();
                        guarded(|| {
                            for k in 0..asked.len() * 3 {
                                let (q, raw) = &asked[(k + t) % asked.len()];
                                if srv.respond(q).map_or(true, |r| r != *raw) {
                                    return Some((t, (k + t) % asked.len()));
                                }
                            }
                            None
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        for b in bad {
            match b {
                Ok(None) => {}
                Ok(Some((t, k))) => return Err(format!("thread {} got another answer to query {} than a lone client", t, k)),
                Err(p) => return Err(format!("a concurrent request: {}", p)),
            }
        }
        ctx.tag("concurrent requests");
    }
    ctx.tag_if(c.kw, "keyword");
    ctx.tag_if(h > 1000, "more than 1000 rows");
    ctx.tag_n("responses", c.queries.len() as u64);
    ctx.tag_n("response coordinates", (c.queries.len() * cols.len()) as u64);
    if c.queries.iter().any(|q| q.0 % 8 != 3) && cols.iter().any(|c| c.iter().any(|x| *x != 0)) {
        ctx.nt();
    }
    Ok(())
}
pub fn p06_property() -> Property {
    Property {
        id: "P06",
        rule: "A case is a server of either kind and arbitrary query vectors (random, extreme, unit, single bits, all zero), each answered twice in different orders, then by several threads at once; the reference is the wide product with the chunk matrix. Non-trivial: a query and the matrix are not zero.",
        subs: vec![
            Sub::new("small", 60000, 1200000, || resp_strat((1, 60), (1, 200), 1), p06).boxed(),
            Sub::new("large", 1200, 24000, || resp_strat((500, 30_000), (1, 60), 1), p06).boxed(),
            Sub::new("wide", 2000, 40000, || resp_strat((1, 10), (1000, 20_000), 1), p06).boxed(),
            Sub::new("huge", 12, 240, || resp_strat((70_000, 1_100_000), (1, 24), 1), p06).workers(4).boxed(),
            Sub::new("giant", 16, 320, || resp_strat((1, 6), (40_000, 1_200_000), 1), p06).workers(6).boxed(),
            Sub::new("threads", 3000, 50000, || resp_strat((1, 400), (1, 200), 6), p06).workers(3).boxed(),
        ],
    }
}

// ---- P07 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ParCase {
    pub kw: bool,
    pub db: KvCase,
    pub flips: Vec<u8>,
}
fn par_strat(m: (usize, usize), bits: (usize, usize), dim: (usize, usize)) -> BoxedStrategy<ParCase> {
    (any::<bool>(), kv_strat(m, bits, dim, 1), 1usize..=31, proptest::collection::vec(any::<u8>(), 4..12))
        .prop_map(|(kw, mut db, pb, flips)| {
            if !kw {
                db.want_pb = pb;
            }
            ParCase { kw, db, flips }
        })
        .boxed()
}
/// Replaces the byte array `old` wherever it occurs in v; returns how often.
fn replace_bytes(v: &mut Value, old: &[u8], new: &[u8]) -> usize {
    let is = |v: &Value| {
        v.as_array().map_or(false, |a| {
            a.len() == old.len() && a.iter().zip(old).all(|(x, y)| x.as_u64() == Some(*y as u64))
        })
    };
    if is(v) {
        *v = serde_json::json!(new);
        return 1;
    }
    match v {
        Value::Array(a) if a.len() < 100 => a.iter_mut().map(|x| replace_bytes(x, old, new)).sum(),
        Value::Object(o) => o.values_mut().map(|x| replace_bytes(x, old, new)).sum(),
        _ => 0,
    }
}
fn p07_params<P>(c: &ParCase, bp: &P, cols: &[Vec<u32>], pb: usize, ctx: &mut Ctx) -> Res
where
    P: BaseParams + Serialize + serde::de::DeserializeOwned,
{
    let d = &c.db;
    let (m, dim) = (cols[0].len(), bp.get_dim());
    ensure_eq!(bp.get_total_records(), m, "advertised number of rows");
    ensure_eq!(bp.get_elem_size(), d.bits, "advertised element size");
    ensure_eq!(bp.get_plaintext_bits(), pb, "advertised width");
    let cp = CommonParams::from(bp);
    let a = cp.as_matrix();
    ensure_eq!(a.len(), m, "rows of the common matrix");
    for (j, r) in a.iter().enumerate() {
        ensure_eq!(r.len(), dim, "columns in row {} of the common matrix", j);
    }
    // the right-hand side commits to the matrix and the database
    let rhs = bp.get_rhs();
    ensure_eq!(rhs.len(), cols.len(), "columns of the right-hand side");
    let at: Vec<Vec<u32>> = (0..dim).map(|k| a.iter().map(|r| r[k]).collect()).collect();
    for i in 0..cols.len() {
        ensure_eq!(rhs[i].len(), dim, "rows in column {} of the right-hand side", i);
        for k in 0..dim {
            ensure_eq!(rhs[i][k], dot(&at[k], &cols[i]), "right-hand side at chunk {} and dimension {} ({} rows)", i, k, m);
        }
    }
    // deterministic, here, in another thread, and after transfer
    ensure!(CommonParams::from(bp).as_matrix() == a, "deriving the common matrix twice gives different matrices");
    let text = serde_json::to_string(bp).unwrap();
    let there = {
        let text = text.clone();
        in_thread(d.seed ^ 7, move || -> Result<Vec<Vec<u32>>, String> {
            let bp: P = e2s("reading parameters", serde_json::from_str(&text))?;
            Ok(CommonParams::from(&bp).as_matrix().to_vec())
        })??
    };
    ensure!(there == a, "a client derives another common matrix than the server");
    // it looks random
    let total = (m * dim) as f64;
    let mut ones = [0u64; 32];
    for r in a {
        for x in r {
            for (b, o) in ones.iter_mut().enumerate() {
                *o += ((x >> b) & 1) as u64;
            }
        }
    }
    for (b, o) in ones.iter().enumerate() {
        let dev = (*o as f64 - total / 2.0).abs();
        ensure!(dev <= 9.0 * (total / 4.0).sqrt() + 2.0, "bit {} is set in {} of {} entries of the common matrix", b, o, total);
    }
    if dim >= 3 {
        let mut rows: Vec<&Vec<u32>> = a.iter().collect();
        rows.sort_unstable();
        ensure!(rows.windows(2).all(|w| w[0] != w[1]), "two rows of the common matrix ({} by {}) are equal", m, dim);
    }
    let mut all: Vec<u32> = a.iter().flatten().copied().collect();
    let n = all.len() as f64;
    all.sort_unstable();
    let dups = all.windows(2).filter(|w| w[0] == w[1]).count() as f64;
    let expect = n * n / 2.0 / 4294967296.0;
    ensure!(
        dups <= expect + 10.0 * expect.sqrt() + 4.0,
        "{} repeated values among {} entries of the common matrix ({:.2} expected)",
        dups,
        n,
        expect
    );
    // every bit of the seed matters
    let seed = bp.get_public_seed();
    for f in &c.flips {
        let mut s2 = seed;
        s2[*f as usize / 8] ^= 1 << (f % 8);
        let mut v: Value = serde_json::from_str(&text).unwrap();
        let k = replace_bytes(&mut v, &seed, &s2);
        if k == 0 {
            break; // the seed is written in another form
        }
        let bp2: P = e2s("reading parameters with another seed", serde_json::from_value(v))?;
        ensure_eq!(bp2.get_public_seed(), s2, "public seed after transfer");
        let cp2 = CommonParams::from(&bp2);
        let b = cp2.as_matrix();
        ensure!(b.len() == m && b.iter().all(|r| r.len() == dim), "shape of the matrix for another seed");
        let same: usize = a.iter().zip(b).map(|(x, y)| x.iter().zip(y).filter(|(p, q)| p == q).count()).sum();
        ensure!(
            same as f64 <= 2.0 + n / 1e6,
            "flipping bit {} of the public seed leaves {} of {} entries of the common matrix unchanged",
            f,
            same,
            n
        );
    }
    ctx.tag_n("seed bits flipped", c.flips.len() as u64);
    ctx.tag_n("right-hand side entries", (dim * cols.len()) as u64);
    ctx.tag_if(m > dim, "more rows than dimensions");
    ctx.tag_if(dim > m, "more dimensions than rows");
    if m >= 2 && cols.iter().any(|c| c.iter().any(|x| *x != 0)) {
        ctx.nt();
    }
    Ok(())
}
pub fn p07(c: &ParCase, ctx: &mut Ctx) -> Res {
    let d = &c.db;
    if c.kw {
        let s = setup_kv(d, 4_000_000)?;
        let db = s.shard.get_db();
        let cols: Vec<Vec<u32>> = (0..s.width).map(|i| db.get_row(i)).collect();
        let bp = s.shard.get_base_params();
        ensure_eq!(bp.get_dim(), s.dim, "advertised dimension");
        let (f, g) = (bp.get_filter_params(), db.get_filter_params());
        ensure_eq!(
            (f.seed, f.segment_length, f.segment_length_mask, f.segment_count_length),
            (g.seed, g.segment_length, g.segment_length_mask, g.segment_count_length),
            "filter parameters advertised and used"
        );
        p07_params(c, bp, &cols, s.pb, ctx)?;
        // parameters made a second time for the same database: a fresh seed
        let again = KVParams::new(db, s.dim, f.seed, f.segment_length, f.segment_length_mask, f.segment_count_length);
        ensure!(again.get_public_seed() != bp.get_public_seed(), "two parameter sets share their seed");
    } else {
        let pb = d.want_pb;
        let elems = elements(d.n, d.bits, pb, d.fill, d.seed);
        let dim = work_dim(d.dim, d.n, chunks(d.bits, pb), 4_000_000);
        let shard = build_shard(&b64s(&elems), dim, d.bits, pb, false)?;
        let cols: Vec<Vec<u32>> = (0..chunks(d.bits, pb)).map(|i| column(&elems, i, pb)).collect();
        let bp = shard.get_base_params();
        ensure_eq!(bp.get_dim(), dim, "advertised dimension");
        p07_params(c, bp, &cols, pb, ctx)?;
        let again = IndexParams::new(shard.get_db(), dim);
        ensure!(again.get_public_seed() != bp.get_public_seed(), "two parameter sets share their seed");
    }
    Ok(())
}
/// Seeds of many instances: all distinct, every byte of them random; for the
/// keyword kind the filter seeds as well.
pub fn p07_seeds(c: &ParCase, ctx: &mut Ctx) -> Res {
    let n = 48;
    let mut seeds: Vec<[u8; 32]> = Vec::new();
    let mut fseeds: Vec<[u8; 32]> = Vec::new();
    let elems = elements(3, 16, 8, Fill::Random, c.db.seed);
    let strs = b64s(&elems);
    let keys = keys256(3, Key256::Random, c.db.seed);
    for _ in 0..n {
        if c.kw {
            let s = build_kv(Entry::New, &keys, None, &elems, 2, 16, 8)?;
            seeds.push(s.get_base_params().get_public_seed());
            fseeds.push(s.get_base_params().get_filter_params().seed);
        } else {
            let s = build_shard(&strs, 2, 16, 8, false)?;
            seeds.push(s.get_base_params().get_public_seed());
        }
    }
    for (name, v) in [("public", &seeds), ("filter", &fseeds)] {
        if v.is_empty() {
            continue;
        }
        for p in 0..32 {
            let mut vals: Vec<u8> = v.iter().map(|s| s[p]).collect();
            vals.sort();
            vals.dedup();
            ensure!(vals.len() >= 20, "byte {} of the {} seed takes {} values only over {} instances", p, name, vals.len(), n);
        }
        for i in 0..v.len() {
            for j in 0..i {
                ensure!(v[i] != v[j], "two instances share their {} seed", name);
                // 128 of 256, and 8.5 standard deviations
                let d: u32 = v[i].iter().zip(&v[j]).map(|(a, b)| (a ^ b).count_ones()).sum();
                ensure!((60..=196).contains(&d), "the {} seeds of instances {} and {} differ in {} bits", name, j, i, d);
            }
        }
    }
    // the filter seed is not the public seed
    for (a, b) in seeds.iter().zip(&fseeds) {
        ensure!(a != b, "public seed and filter seed coincide");
    }
    ctx.nt();
    ctx.tag_n("instances", n as u64);
    Ok(())
}
pub fn p07_property() -> Property {
    Property {
        id: "P07",
        rule: "A case is a server of either kind: its right-hand side against the wide product of the derived matrix and the chunk matrix, determinism across threads and transfer, balance and distinctness of the matrix, single-bit changes of the seed (4 to 12 random bits); 'seeds' compares 48 instances. Non-trivial: at least two rows and a matrix that is not zero.",
        subs: vec![
            Sub::new("small", 25000, 500000, || par_strat((1, 60), (1, 120), (1, 48)), p07).boxed(),
            Sub::new("medium", 1000, 20000, || par_strat((61, 3000), (1, 60), (1, 200)), p07).boxed(),
            Sub::new("deep", 600, 12000, || par_strat((1, 200), (1, 40), (400, 2048)), p07).boxed(),
            Sub::new("huge", 10, 200, || par_strat((70_000, 1_200_000), (1, 8), (1, 12)), p07).workers(4).boxed(),
            Sub::new("giant", 12, 240, || par_strat((1, 6), (40_000, 1_200_000), (1, 3)), p07).workers(6).boxed(),
            Sub::new("square", 3000, 60000, || par_strat((1, 60), (1, 400), (1, 4)).prop_map(|mut c| {
                // (a keyword server's height is known only once it is built)
                c.kw = false;
                c.db.dim = c.db.n;
                if c.flips[0] % 2 == 0 {
                    c.db.bits = c.db.want_pb * c.db.n;
                }
                c
            }).boxed(), p07).boxed(),
            Sub::new("together", 1200, 24000, || several(par_strat((1, 60), (1, 60), (1, 40))), |c, ctx| together(c, 2, ctx, p07)).workers(3).boxed(),
            Sub::new("seeds", 800, 16000, || par_strat((1, 2), (1, 2), (1, 2)), p07_seeds).boxed(),
        ],
    }
}

// ---- P08 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LoadCase {
    pub m: usize,
    pub bits: usize,
    pub pb: usize,
    pub fill: Fill,
    pub seed: u64,
    pub pretty: bool,
}
pub fn load_strat(m: (usize, usize), bits: (usize, usize)) -> BoxedStrategy<LoadCase> {
    (sized(m.0, m.1), sized(bits.0, bits.1), 1usize..=32, fill(), any::<u64>(), any::<bool>())
        .prop_map(|(m, bits, pb, fill, seed, pretty)| LoadCase { m, bits, pb, fill, seed, pretty })
        .boxed()
}
fn read_matrix(path: &std::path::Path) -> Result<Vec<Vec<u32>>, String> {
    let t = e2s("reading the exported matrix", std::fs::read_to_string(path))?;
    e2s("parsing the exported matrix", serde_json::from_str(&t))
}
fn db_cols(db: &IndexDatabase, n: usize) -> Vec<Vec<u32>> {
    (0..n).map(|i| db.get_row(i)).collect()
}
pub fn p08(c: &LoadCase, ctx: &mut Ctx) -> Res {
    let elems = elements(c.m, c.bits, c.pb, c.fill, c.seed);
    let strs = b64s(&elems);
    let w = chunks(c.bits, c.pb);
    let want: Vec<Vec<u32>> = (0..w).map(|i| column(&elems, i, c.pb)).collect();
    let mut db = e2s("IndexDatabase::new", IndexDatabase::new(&strs, c.m, c.bits, c.pb))?;
    ensure_eq!(db.get_matrix_height(), c.m, "height");
    ensure_eq!(db.get_row_width_self(), w, "row width");
    ensure_eq!(IndexDatabase::get_row_width(c.bits, c.pb), w, "row width (static)");
    ensure_eq!((db.get_elem_size(), db.get_plaintext_bits()), (c.bits, c.pb), "sizes");
    ensure!(db_cols(&db, w) == want, "stored chunks differ from the elements ({} elements of {} bits, width {})", c.m, c.bits, c.pb);
    for i in 0..c.m {
        ensure_eq!(db.get_db_entry(i), strs[i], "entry {} of {} read back ({} bits, width {})", i, c.m, c.bits, c.pb);
    }
    // the column products see the same matrix
    let mut rng = Mix::new(c.seed ^ 8);
    let v: Vec<u32> = (0..c.m).map(|_| rng.next() as u32).collect();
    for i in [0, w - 1] {
        ensure_eq!(db.vec_mult(&v, i), dot(&v, &want[i]), "product with chunk column {}", i);
    }
    // files
    let (p, q) = (scratch("in.json"), scratch("out.json"));
    let style = c.pretty as u8 + 2 * (c.seed % 3) as u8;
    std::fs::write(&p, json_text(&serde_json::json!(strs), style)).unwrap();
    let r = (|| -> Res {
        let db2 = e2s("IndexDatabase::from_file", IndexDatabase::from_file(p.to_str().unwrap(), c.m, c.bits, c.pb))?;
        ensure!(db_cols(&db2, w) == want, "a database loaded from a file differs from the elements");
        let shard = e2s("Shard::from_json_file", Shard::from_json_file(p.to_str().unwrap(), 1, c.m, c.bits, c.pb))?;
        ensure!(db_cols(shard.get_db(), w) == want, "a server loaded from a file holds other chunks");
        let rows: Vec<String> = shard.into_row_iter().collect();
        ensure_eq!(rows.len(), c.m, "number of rows iterated over");
        for i in 0..c.m {
            ensure_eq!(rows[i], strs[i], "row {} of {} iterated over ({} bits, width {})", i, c.m, c.bits, c.pb);
        }
        e2s("write_to_file", db.write_to_file(q.to_str().unwrap()))?;
        ensure!(read_matrix(&q)? == want, "the exported matrix differs from the elements");
        // the transposed format and back
        db.switch_fmt();
        for i in 0..c.m {
            ensure_eq!(db.get_row(i), chunk_row(&elems[i], c.bits, c.pb), "row {} of the transposed matrix", i);
        }
        e2s("write_to_file", db.write_to_file(q.to_str().unwrap()))?;
        let t = read_matrix(&q)?;
        ensure_eq!(t.len(), c.m, "rows of the exported transposed matrix");
        for i in 0..c.m {
            ensure_eq!(t[i], chunk_row(&elems[i], c.bits, c.pb), "row {} of the exported transposed matrix", i);
        }
        db.switch_fmt();
        ensure!(db_cols(&db, w) == want, "switching the format twice changed the matrix");
        for i in 0..c.m {
            ensure_eq!(db.get_db_entry(i), strs[i], "entry {} after switching twice", i);
        }
        Ok(())
    })();
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_file(&q);
    r?;
    ctx.tag_if(c.bits % c.pb == 0, "width divides element size");
    ctx.tag_if(c.bits % 8 != 0, "element size not a multiple of 8");
    ctx.tag(["compact JSON", "indented JSON", "JSON with escaped slashes", "JSON with everything escaped", "JSON with odd whitespace", "plain JSON"][style as usize]);
    ctx.tag_if(c.pb == 32, "width 32");
    ctx.tag_if(c.pb > c.bits, "chunk wider than the element");
    ctx.tag_if(c.m == w && c.m > 1, "square matrix");
    ctx.tag_n("elements", c.m as u64);
    if c.m >= 2 && elems.iter().any(|e| e.iter().any(|b| *b != 0)) {
        ctx.nt();
    }
    Ok(())
}
/// The matrix of a keyword server: exported, transposed and read as it is used.
pub fn p08_kv(c: &KvCase, ctx: &mut Ctx) -> Res {
    let s = setup_kv(c, 200_000)?;
    let mut db = s.shard.get_db().clone();
    let h = db.get_matrix_height();
    let cols: Vec<Vec<u32>> = (0..s.width).map(|i| db.get_row(i)).collect();
    for (i, col) in cols.iter().enumerate() {
        ensure_eq!(col.len(), h, "height of column {}", i);
        for x in col {
            ensure!((*x as u64) < 1 << s.pb, "an entry of column {} exceeds the plaintext modulus", i);
        }
    }
    // what the matrix holds under a key, read in the clear, is the value
    let fp = db.get_filter_params();
    for (k, e) in s.keys.iter().zip(&s.elems) {
        let pos = fp.get_hash_evals(k);
        for (i, col) in cols.iter().enumerate() {
            let sum = pos.iter().fold(0u32, |a, p| a.wrapping_add(col[*p]));
            let got = fp.unmask_value(sum, k, i as u64) & (((1u64 << s.pb) - 1) as u32);
            ensure_eq!(got, chunk(e, i, s.pb), "chunk {} of the value under key {:x?}", i, k);
        }
    }
    let q = scratch("kvout.json");
    let r = (|| -> Res {
        e2s("write_to_file", db.write_to_file(q.to_str().unwrap()))?;
        ensure!(read_matrix(&q)? == cols, "the exported matrix differs from the one in use");
        db.switch_fmt();
        for j in 0..h {
            let row: Vec<u32> = cols.iter().map(|c| c[j]).collect();
            ensure_eq!(db.get_row(j), row, "row {} of the transposed matrix", j);
        }
        db.switch_fmt();
        for i in 0..s.width {
            ensure_eq!(db.get_row(i), cols[i], "column {} after switching twice", i);
        }
        Ok(())
    })();
    let _ = std::fs::remove_file(&q);
    r?;
    let rows: Vec<String> = s.shard.into_row_iter().collect();
    ensure_eq!(rows.len(), h, "number of rows iterated over");
    for j in 0..h {
        // the row's chunks, concatenated
        let mut bytes = vec![0u8; elem_bytes(c.bits)];
        for b in 0..c.bits {
            if (cols[b / s.pb][j] >> (b % s.pb)) & 1 == 1 {
                bytes[b / 8] |= 1 << (b % 8);
            }
        }
        ensure_eq!(rows[j], b64(&bytes), "row {} of {} iterated over", j, h);
    }
    if c.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p08_property() -> Property {
    Property {
        id: "P08",
        rule: "A case is a list of elements (count, bits, contents), a chunk width from 1 to 32, and a JSON layout; the chunk matrix, entries, iterator, exported file, file-loaded databases and the transposed format are compared with an independent chunking. Non-trivial: at least two elements, not all zero (two pairs for the keyword kind).",
        subs: vec![
            Sub::new("small", 40000, 800000, || load_strat((1, 40), (1, 300)), p08).boxed(),
            Sub::new("medium", 1500, 30000, || load_strat((1, 1500), (1, 400)), p08).boxed(),
            Sub::new("wide", 600, 12000, || load_strat((1, 6), (1500, 20_000)), p08).boxed(),
            Sub::new("giant", 12, 240, || load_strat((1, 6), (40_000, 1_200_000)), p08).workers(6).boxed(),
            Sub::new("huge", 6, 120, || load_strat((60_000, 150_000), (1, 24)), p08).workers(6).boxed(),
            Sub::new("enormous", 2, 20, || load_strat((1, 2), ((1 << 24) - 9, (1 << 24) + 2_000_000)), p08).workers(2).boxed(),
            Sub::new("square", 2000, 40000, || load_strat((1, 80), (1, 2)).prop_map(|mut c| { c.bits = c.m * c.pb - c.bits % c.pb; c }).boxed(), p08).boxed(),
            Sub::new("keyword", 10000, 200000, || kv_strat((1, 100), (1, 200), (1, 4), 1), p08_kv).boxed(),
            Sub::new("together", 1200, 24000, || several(load_strat((1, 60), (1, 200))), |c, ctx| together(c, 3, ctx, p08)).workers(3).boxed(),
            Sub::new("keyword giant", 4, 80, || kv_strat((1, 6), (40_000, 1_000_000), (1, 2), 1), p08_kv).workers(4).boxed(),
        ],
    }
}

// ---- P10 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BuildCase {
    pub db: KvCase,
    pub script: u8,
}
/// A keyword server builds from any set of distinct keys, whatever the entropy.
pub fn p10_kv(c: &BuildCase, ctx: &mut Ctx) -> Res {
    let d = &c.db;
    match c.script {
        0 => {}
        1 => getrandom::det::script(vec![0; 64]),
        2 => getrandom::det::script(vec![0xff; 64]),
        _ => getrandom::det::script(vec![c.script; 640]),
    }
    let s = setup_kv(d, 300_000);
    // what is left of the script is not for the queries: constant errors add up
    getrandom::det::script(vec![]);
    let s = s?;
    // and it answers
    let which = pick_rows(d.n, 1, d.seed);
    kv_queries(&s.shard, &s.keys, &s.elems, &which, d.bits, s.pb, d.seed)?;
    ctx.tag_if(d.n <= 10, "up to ten pairs");
    ctx.tag_if(d.n > 1000, "more than 1000 pairs");
    ctx.tag_if(c.script > 0, "scripted entropy");
    if d.n >= 2 {
        ctx.nt();
    }
    Ok(())
}
/// The first filter seed puts many keys at one position of the filter.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KvCrowdCase {
    pub n: usize,
    pub crowd: usize,
    pub at: u8,
    pub bits: usize,
    pub seed: u64,
}
fn kv_crowd_strat() -> BoxedStrategy<KvCrowdCase> {
    (sized(1, 250), prop_oneof![1 => 2usize..60, 2 => 60usize..70, 1 => 60usize..140], 0u8..3, sized(1, 40), any::<u64>())
        .prop_map(|(n, crowd, at, bits, seed)| KvCrowdCase { n: n.max(crowd), crowd, at, bits, seed })
        .boxed()
}
pub fn p10_crowd(c: &KvCrowdCase, ctx: &mut Ctx) -> Res {
    let mut rng = Mix::new(c.seed ^ 0xc0);
    let seed = crate::filters::seed32(&mut rng);
    let keys = crate::filters::crowded_keys(c.n, c.crowd, c.at as usize, seed, &mut rng)?;
    let pb = fit_kv_pb(c.n, 8);
    let elems = elements(c.n, c.bits, pb, Fill::Random, c.seed);
    getrandom::det::script(seed.to_vec());
    let shard = build_kv(Entry::New, &keys, None, &elems, 3, c.bits, pb);
    getrandom::det::script(vec![]);
    let shard = shard?;
    let which = pick_rows(c.n, 2, c.seed);
    kv_queries(&shard, &keys, &elems, &which, c.bits, pb, c.seed)?;
    ctx.tag_if(shard.get_base_params().get_filter_params().seed != seed, "first seed replaced");
    ctx.tag_if(c.crowd >= 64, "64 keys or more at one position");
    ctx.nt();
    Ok(())
}
fn build_strat(n: (usize, usize), bits: (usize, usize)) -> BoxedStrategy<BuildCase> {
    (kv_strat(n, bits, (1, 2), 1), prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => 3u8..255])
        .prop_map(|(db, script)| BuildCase { db, script })
        .boxed()
}
pub fn p10_index(c: &IdxCase, ctx: &mut Ctx) -> Res {
    let s = setup_idx(c, 300_000)?;
    let bp = s.shard.get_base_params();
    ensure_eq!(bp.get_total_records(), c.m, "number of rows");
    if c.m >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p10_property() -> Property {
    Property {
        id: "P10",
        rule: "A case is a set of distinct keys with values and entropy (also scripted to zeros, ones and repeated bytes), a list of elements, or a set of 64-bit keys; construction has to succeed and the server to answer a query. Unlucky filter seeds (1 to 8 % of all) occur in hundreds of cases. Non-trivial: at least two pairs, elements or keys.",
        subs: vec![
            Sub::new("keyword tiny", 80000, 1600000, || build_strat((1, 12), (1, 16)), p10_kv).boxed(),
            Sub::new("keyword small", 15000, 300000, || build_strat((1, 300), (1, 40)), p10_kv).boxed(),
            Sub::new("keyword large", 800, 16000, || build_strat((300, 30_000), (1, 16)), p10_kv).boxed(),
            Sub::new(
                "keyword tight sizes",
                600,
                12_000,
                || (tight_sizes(40_000), build_strat((1, 2), (1, 8))).prop_map(|(n, mut c)| { c.db.n = n; c }).boxed(),
                p10_kv,
            )
            .boxed(),
            Sub::new("keyword together", 3000, 60000, || several(build_strat((1, 200), (1, 24))), |c, ctx| together(c, 3, ctx, p10_kv)).workers(3).boxed(),
            Sub::new("keyword crowded", 8000, 160_000, kv_crowd_strat, p10_crowd).boxed(),
            Sub::new("keyword huge", 12, 240, || build_strat((100_000, 1_000_000), (1, 8)), p10_kv).workers(4).boxed(),
            Sub::new("index", 10000, 200000, || idx_strat((1, 200), (1, 200), (1, 4), 1), p10_index).boxed(),
            Sub::new("set filters", 25000, 500000, || crate::filters::set_strat(0, 400), crate::filters::p10_sets).boxed(),
            Sub::new("set filters large", 300, 6000, || crate::filters::set_strat(400, 60_000), crate::filters::p10_sets).boxed(),
        ],
    }
}
