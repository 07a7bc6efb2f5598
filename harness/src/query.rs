//! P03 (single use), P04 (fresh LWE queries), P05 (decoding).
use crate::core::*;
use crate::gen::*;
use crate::pir::*;
use keyword_pir_lwe::api::*;
use keyword_pir_lwe::errors::ErrorQueryParamsReused;
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;

// ---- P03 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { kw: bool },
    Query { obj: u16, target: u16 },
    Clone { obj: u16 },
    /// 0 bincode, 1 JSON string, 2 JSON value, 3 JSON file-like bytes
    Transfer { obj: u16, format: u8 },
    Parse { obj: u16 },
    /// parse somebody else's response (any result will do)
    ParseOther { obj: u16, other: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    pub db: KvCase,
    pub ops: Vec<Op>,
}
fn hist_strat(max_ops: usize) -> BoxedStrategy<Hist> {
    let op = prop_oneof![
        2 => any::<bool>().prop_map(|kw| Op::New { kw }),
        6 => (any::<u16>(), any::<u16>()).prop_map(|(obj, target)| Op::Query { obj, target }),
        2 => any::<u16>().prop_map(|obj| Op::Clone { obj }),
        2 => (any::<u16>(), 0u8..4).prop_map(|(obj, format)| Op::Transfer { obj, format }),
        3 => any::<u16>().prop_map(|obj| Op::Parse { obj }),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(obj, other)| Op::ParseOther { obj, other }),
    ];
    (kv_strat((1, 30), (1, 80), (1, 40), 1), proptest::collection::vec(op, 1..max_ops))
        .prop_map(|(db, ops)| Hist { db, ops })
        .boxed()
}
#[derive(Clone)]
enum Obj {
    I(IdxQP),
    K(KvQP),
}
#[derive(Clone)]
struct Slot {
    obj: Obj,
    /// what the model knows: the target and response of the query it produced
    used: Option<(usize, Response)>,
}
pub fn transfer<T: Serialize + DeserializeOwned>(t: &T, format: u8) -> Result<T, String> {
    match format % 4 {
        0 => {
            let b = e2s("bincode::serialize", bincode::serialize(t))?;
            e2s("bincode::deserialize", bincode::deserialize(&b))
        }
        1 => {
            let s = e2s("serde_json::to_string", serde_json::to_string(t))?;
            e2s("serde_json::from_str", serde_json::from_str(&s))
        }
        2 => {
            let v = e2s("serde_json::to_value", serde_json::to_value(t))?;
            e2s("serde_json::from_value", serde_json::from_value(v))
        }
        _ => {
            let v = e2s("serde_json::to_vec_pretty", serde_json::to_vec_pretty(t))?;
            e2s("serde_json::from_reader", serde_json::from_reader(&v[..]))
        }
    }
}
pub fn p03(h: &Hist, ctx: &mut Ctx) -> Res {
    let c = &h.db;
    let kv = setup_kv(c, 400_000)?;
    let idx = {
        let (pb, elems) = fit_index_db(c.n, c.bits, c.want_pb, c.fill, c.seed);
        let strs = b64s(&elems);
        let shard = build_shard(&strs, kv.dim, c.bits, pb, false)?;
        (pb, elems, shard)
    };
    let ibp = idx.2.get_base_params();
    let kbp = kv.shard.get_base_params();
    let icp = CommonParams::from(ibp);
    let kcp = CommonParams::from(kbp);
    let mut pool: Vec<Slot> = Vec::new();
    let mut refused = 0;
    let pick = |n: usize, x: u16| (x as usize * n) >> 16;
    for (step, op) in h.ops.iter().enumerate() {
        if pool.is_empty() && !matches!(op, Op::New { .. }) {
            continue;
        }
        match op {
            Op::New { kw } => {
                let obj = if *kw {
                    Obj::K(e2s("generate_kv_query_params", generate_kv_query_params(&kcp, kbp))?)
                } else {
                    Obj::I(e2s("generate_index_query_params", generate_index_query_params(&icp, ibp))?)
                };
                pool.push(Slot { obj, used: None });
            }
            Op::Query { obj, target } => {
                let o = pick(pool.len(), *obj);
                let t = pick(c.n, *target);
                let slot = &mut pool[o];
                let r = match &mut slot.obj {
                    Obj::I(qp) => qp.generate_query(t),
                    Obj::K(qp) => qp.generate_query(&kv.keys[t]),
                };
                match (r, &slot.used) {
                    (Ok(_), Some((t0, _))) => {
                        return Err(format!(
                            "step {}: object {} produced a second query (target {}, first target {})",
                            step, o, t, t0
                        ))
                    }
                    (Ok(q), None) => {
                        let resp = match &slot.obj {
                            Obj::I(_) => idx.2.respond(&q),
                            Obj::K(_) => kv.shard.respond(&q),
                        };
                        slot.used = Some((t, decode(e2s("respond", resp)?)?));
                    }
                    (Err(e), Some(_)) => {
                        ensure!(
                            e.downcast_ref::<ErrorQueryParamsReused>().is_some(),
                            "step {}: object {} was refused with another error: {}",
                            step,
                            o,
                            e
                        );
                        refused += 1;
                    }
                    (Err(e), None) => {
                        return Err(format!("step {}: fresh object {} was refused: {}", step, o, e));
                    }
                }
            }
            Op::Clone { obj } => {
                let o = pick(pool.len(), *obj);
                let s = pool[o].clone();
                pool.push(s);
            }
            Op::Transfer { obj, format } => {
                let o = pick(pool.len(), *obj);
                let used = pool[o].used.clone();
                let obj = match &pool[o].obj {
                    Obj::I(qp) => Obj::I(transfer(qp, *format)?),
                    Obj::K(qp) => Obj::K(transfer(qp, *format)?),
                };
                pool[o] = Slot { obj, used };
            }
            Op::Parse { obj } => {
                let s = &pool[pick(pool.len(), *obj)];
                if let Some((t, resp)) = &s.used {
                    match &s.obj {
                        Obj::I(qp) => check_index_answer(qp, resp, &idx.1[*t], c.bits, idx.0, *t)
                            .map_err(|e| format!("step {}: {}", step, e))?,
                        Obj::K(qp) => check_kv_answer(qp, resp, &kv.keys[*t], &kv.elems[*t], c.bits, kv.pb, "the pair asked for")
                            .map_err(|e| format!("step {}: {}", step, e))?,
                    }
                }
            }
            Op::ParseOther { obj, other } => {
                let a = pick(pool.len(), *obj);
                let b = pick(pool.len(), *other);
                let resp = match (&pool[a].obj, &pool[b]) {
                    (Obj::I(_), Slot { obj: Obj::I(_), used: Some((_, r)) }) => r.clone(),
                    (Obj::K(_), Slot { obj: Obj::K(_), used: Some((_, r)) }) => r.clone(),
                    _ => continue,
                };
                match &pool[a].obj {
                    Obj::I(qp) => drop(qp.parse_resp_as_row(&resp)),
                    Obj::K(qp) => drop(qp.parse_resp_as_row(&resp, &kv.keys[0])),
                }
            }
        }
        // the public flag agrees with the model at every point of the history
        for (i, s) in pool.iter().enumerate() {
            let flag = match &s.obj {
                Obj::I(qp) => qp.used,
                Obj::K(qp) => qp.used,
            };
            ensure_eq!(flag, s.used.is_some(), "step {} ({:?}): 'used' of object {}", step, op, i);
        }
    }
    // in the end every response still parses, after all refused attempts
    for (i, s) in pool.iter().enumerate() {
        if let Some((t, resp)) = &s.used {
            match &s.obj {
                Obj::I(qp) => check_index_answer(qp, resp, &idx.1[*t], c.bits, idx.0, *t),
                Obj::K(qp) => check_kv_answer(qp, resp, &kv.keys[*t], &kv.elems[*t], c.bits, kv.pb, "the pair asked for"),
            }
            .map_err(|e| format!("at the end, object {}: {}", i, e))?;
        }
    }
    ctx.tag_n("refused attempts", refused);
    ctx.tag_n("operations", h.ops.len() as u64);
    ctx.tag_n("objects", pool.len() as u64);
    if refused > 0 {
        ctx.nt();
    }
    Ok(())
}
pub fn p03_property() -> Property {
    Property {
        id: "P03",
        rule: "A case is an index and a keyword server and a history of create / query / clone / serialise-and-restore / parse operations over a growing pool of parameter objects of both kinds, run against a model (per object: unused, or the one query it made). Non-trivial: at least one repeated attempt was refused.",
        subs: vec![
            Sub::new("short", 50000, 1000000, || hist_strat(16), p03).boxed(),
            Sub::new("together", 3000, 60000, || several(hist_strat(16)), |c, ctx| together(c, 3, ctx, p03)).workers(3).boxed(),
            Sub::new("long", 6000, 120000, || hist_strat(150), p03).boxed(),
        ],
    }
}

// ---- P04 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LweCase {
    pub kw: bool,
    pub m: usize,
    pub dim: usize,
    pub bits: usize,
    pub pb: usize,
    pub seed: u64,
    pub objects: usize,
    /// words served first by the random source (indices into EDGES)
    pub script: Vec<u8>,
}
const EDGES: [u32; 16] = [
    0,
    1,
    u32::MAX,
    u32::MAX - 1,
    u32::MAX - 2,
    u32::MAX - 3,
    (u32::MAX - 2) / 3,
    (u32::MAX - 2) / 3 + 1,
    (u32::MAX - 2) / 3 * 2,
    (u32::MAX - 2) / 3 * 2 + 1,
    (u32::MAX - 2) / 3 * 3,
    (u32::MAX - 2) / 3 * 3 + 1,
    1 << 31,
    (1 << 31) - 1,
    u32::MAX / 3,
    u32::MAX / 3 * 2,
];
fn lwe_strat(m: (usize, usize), dim: (usize, usize), objects: usize) -> BoxedStrategy<LweCase> {
    (
        any::<bool>(),
        sized(m.0, m.1),
        sized(dim.0, dim.1),
        1usize..30,
        8usize..=20,
        any::<u64>(),
        1..=objects,
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec(0u8..16, 1..40)],
    )
        .prop_map(|(kw, m, dim, bits, pb, seed, objects, script)| {
            // matrices of at most 64 MB
            let dim = dim.min((1 << 24) / m).max(1);
            LweCase { kw, m, dim, bits, pb, seed, objects, script }
        })
        .boxed()
}
enum Server {
    I(Shard),
    K(KVShard, Vec<[u64; 4]>),
}
impl Server {
    fn build(c: &LweCase) -> Result<Server, String> {
        let elems = elements(c.m, c.bits, c.pb, Fill::Random, c.seed);
        if c.kw {
            let keys = keys256(c.m, Key256::Random, c.seed);
            Ok(Server::K(build_kv(Entry::New, &keys, None, &elems, c.dim, c.bits, c.pb)?, keys))
        } else {
            Ok(Server::I(build_shard(&b64s(&elems), c.dim, c.bits, c.pb, false)?))
        }
    }
    fn height(&self) -> usize {
        match self {
            Server::I(s) => s.get_base_params().get_total_records(),
            Server::K(s, _) => s.get_base_params().get_total_records(),
        }
    }
    fn cp(&self) -> CommonParams {
        match self {
            Server::I(s) => CommonParams::from(s.get_base_params()),
            Server::K(s, _) => CommonParams::from(s.get_base_params()),
        }
    }
    /// A query for a target, and the positions it should touch.
    fn ask(&self, cp: &CommonParams, t: usize) -> Result<(Vec<u32>, Vec<usize>), String> {
        match self {
            Server::I(s) => {
                let mut qp = e2s("generate_index_query_params", generate_index_query_params(cp, s.get_base_params()))?;
                let q = e2s("generate_query", qp.generate_query(t))?;
                Ok((q.as_slice().to_vec(), vec![t]))
            }
            Server::K(s, keys) => {
                let bp = s.get_base_params();
                let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(cp, bp))?;
                let key = &keys[t % keys.len()];
                let q = e2s("generate_query", qp.generate_query(key))?;
                Ok((q.as_slice().to_vec(), bp.get_filter_params().get_hash_evals(key)))
            }
        }
    }
}
/// Splits 16 s + e.
fn split(v: i32) -> Option<(i32, i32)> {
    let s = (v + 8).div_euclid(16);
    let e = v - 16 * s;
    ((-1..=1).contains(&s) && (-1..=1).contains(&e)).then_some((s, e))
}
fn tern(x: i32) -> usize {
    (x + 1) as usize
}
/// Secrets and errors, read off exactly with the diagonal matrix.
pub fn p04_exact(c: &LweCase, ctx: &mut Ctx) -> Res {
    let server = Server::build(c)?;
    let h = server.height();
    let cp = diagonal(h, c.dim)?;
    let delta = (1u64 << (32 - c.pb)) as u32;
    let mut rng = Mix::new(c.seed ^ 4);
    let mut words: Vec<u8> = Vec::new();
    for i in &c.script {
        words.extend_from_slice(&EDGES[*i as usize].to_le_bytes());
    }
    getrandom::det::script(words);
    let mut prev: Option<(Vec<i32>, Vec<i32>)> = None;
    let mut windows = Windows::default();
    let mut target_err = vec![0u64; 3];
    let (mut cs, mut ce, mut cse) = (vec![0u64; 3], vec![0u64; 3], vec![0u64; 9]);
    let (mut ss1, mut ee1) = (vec![0u64; 9], vec![0u64; 9]);
    let (mut ssn, mut een, mut sen) = (vec![0u64; 9], vec![0u64; 9], vec![0u64; 9]);
    let mut first_last = vec![0u64; 6];
    for k in 0..c.objects {
        let t = match k {
            0 => c.m - 1,
            1 => 0,
            _ => rng.below(c.m),
        };
        let (q, pos) = server.ask(&cp, t)?;
        ensure_eq!(q.len(), h, "length of query {} of {:?}", k, (c.m, c.dim));
        let mut s = vec![9i32; c.dim];
        let mut e = vec![0i32; h];
        for j in 0..h {
            let mut v = q[j];
            if pos.contains(&j) {
                v = v.wrapping_sub(delta);
            }
            let (sj, ej) = match split(v as i32) {
                Some(x) => x,
                None => {
                    return Err(format!(
                        "query {} for target {} (positions {:?}): coordinate {} is {} away from secret times matrix plus ternary error",
                        k, t, pos, j, v as i32
                    ))
                }
            };
            let i = j % c.dim;
            ensure!(s[i] == 9 || s[i] == sj, "query {}: rows that share secret coordinate {} disagree on it", k, i);
            s[i] = sj;
            e[j] = ej;
            if pos.contains(&j) {
                target_err[tern(ej)] += 1;
            }
        }
        let seen = c.dim.min(h);
        for i in 0..seen {
            cs[tern(s[i])] += 1;
            if i + 1 < seen {
                ss1[3 * tern(s[i]) + tern(s[i + 1])] += 1;
            }
        }
        first_last[tern(s[0])] += 1;
        first_last[3 + tern(e[h - 1])] += 1;
        for j in 0..h {
            ce[tern(e[j])] += 1;
            // independence is tested on pairs that share no coordinate
            if j < seen {
                cse[3 * tern(s[j]) + tern(e[j])] += 1;
            }
            if j + 1 < h && j % 2 == 0 {
                ee1[3 * tern(e[j]) + tern(e[j + 1])] += 1;
            }
        }
        if let Some((ps, pe)) = &prev {
            for i in 0..seen {
                ssn[3 * tern(ps[i]) + tern(s[i])] += 1;
                sen[3 * tern(pe[i]) + tern(s[i])] += 1;
            }
            for j in 0..h {
                een[3 * tern(pe[j]) + tern(e[j])] += 1;
            }
            ensure!(seen < 64 || ps[..seen] != s[..seen], "two parameter objects share their secret");
            ensure!(h < 64 || *pe != e, "two parameter objects share their error");
        }
        if c.script.is_empty() {
            let digits = |v: &[i32]| v.iter().map(|x| tern(*x) as u8).collect::<Vec<u8>>();
            order_counts("secrets", &digits(&s[..seen]), ctx);
            order_counts("errors", &digits(&e), ctx);
            windows.add(&format!("the secret of object {}", k), &s[..seen]);
            windows.add(&format!("the error of object {}", k), &e);
        }
        prev = Some((s, e));
    }
    windows.judge().map_err(|m| format!("{} (height {}, dimension {})", m, h, c.dim))?;
    if c.script.is_empty() {
        for (n, v) in [
            ("secret", &cs),
            ("error", &ce),
            ("error at target", &target_err),
            ("secret x error", &cse),
            ("error x next coordinate's", &ee1),
            ("secret x next object's", &ssn),
            ("error x next object's", &een),
            ("error x next object's secret", &sen),
            ("secret x next coordinate's", &ss1),
            ("first secret, last error", &first_last),
        ] {
            ctx.count(n, v);
        }
        // every large case is judged by itself as well, so that a dependence
        // on its size shows
        for (n, v) in [("secret", &cs), ("error", &ce)] {
            uniform(n, v).map_err(|m| format!("{} (height {}, dimension {})", m, h, c.dim))?;
        }
        for (n, v) in [("secret x error", &cse), ("secret x next object's", &ssn), ("error x next object's", &een), ("error x next coordinate's", &ee1)] {
            uniform(n, v).map_err(|m| format!("{} (height {}, dimension {})", m, h, c.dim))?;
        }
    }
    ctx.tag_if(c.kw, "keyword");
    ctx.tag_if(!c.script.is_empty(), "boundary values of the random source");
    ctx.tag_n("coordinates decomposed", (h * c.objects) as u64);
    if h >= 2 && c.objects >= 2 {
        ctx.nt();
    }
    Ok(())
}
/// Runs of 48 ternary values within secrets and errors: no two of them are
/// the same (each pair is with probability 3^-48, below 2e-23).
#[derive(Default)]
struct Windows {
    names: Vec<String>,
    codes: Vec<(u128, u32, u32)>,
}
impl Windows {
    fn add(&mut self, name: &str, v: &[i32]) {
        const LEN: usize = 48;
        let id = self.names.len() as u32;
        self.names.push(name.to_string());
        let mut code = 0u128;
        for (i, x) in v.iter().enumerate() {
            code = ((code << 2) | tern(*x) as u128) & ((1 << (2 * LEN)) - 1);
            if i + 1 >= LEN {
                self.codes.push((code, id, (i + 1 - LEN) as u32));
            }
        }
    }
    fn judge(mut self) -> Res {
        self.codes.sort_unstable();
        for w in self.codes.windows(2) {
            ensure!(
                w[0].0 != w[1].0,
                "the 48 values from {} on of {} are those from {} on of {} again",
                w[0].2,
                self.names[w[0].1 as usize],
                w[1].2,
                self.names[w[1].1 as usize]
            );
        }
        Ok(())
    }
}
/// Chi-square test of equal cells; alarms below about 1e-13.
fn uniform(name: &str, cells: &[u64]) -> Res {
    let n: u64 = cells.iter().sum();
    let k = cells.len() as f64;
    if (n as f64) < 60.0 * k {
        return Ok(());
    }
    let e = n as f64 / k;
    let x: f64 = cells.iter().map(|c| (*c as f64 - e) * (*c as f64 - e) / e).sum();
    let df = k - 1.0;
    // Wilson-Hilferty: chi2 quantile at z = 7.6 (1.5e-14)
    let z = 7.6;
    let a = 2.0 / (9.0 * df);
    // df 2 needs the exact tail exp(-x/2)
    let limit = if df == 2.0 { 64.0 } else { df * (1.0 - a + z * a.sqrt()).powi(3) + 10.0 };
    ensure!(x < limit, "{}: counts {:?} are not uniform (chi-square {:.1}, limit {:.1})", name, cells, x, limit);
    Ok(())
}
/// What the order of the values in one vector could give away: whether blocks
/// of it (or all of it) hold each value too evenly or too unevenly, and whether
/// the values at its ends, or around the boundaries of blocks, go together.
fn order_counts(kind: &str, v: &[u8], ctx: &mut Ctx) {
    let class = match v.len() {
        0..=255 => "short",
        256..=4096 => "middling",
        _ => "long",
    };
    let spread = |b: &[u8]| -> u64 {
        let mut c = [0u64; 3];
        b.iter().for_each(|x| c[*x as usize] += 1);
        let n = b.len() as f64;
        let chi2 = 3.0 / n * c.iter().map(|x| (x * x) as f64).sum::<f64>() - n;
        (chi2 * 1024.0).round() as u64
    };
    if v.len() >= 64 {
        ctx.count(&format!("balance of {} {}", class, kind), &[1, spread(v)]);
    }
    for b in [16usize, 32, 64, 128, 256, 512, 1024, 4096] {
        if v.len() >= b {
            let mut cells = [0, 0];
            for block in v.chunks_exact(b) {
                cells[0] += 1;
                cells[1] += spread(block);
            }
            ctx.count(&format!("balance of blocks of {} in {}", b, kind), &cells);
        }
    }
    if v.len() >= 64 {
        for lag in [1usize, 2, 4, 8, 16] {
            for (place, part) in [("first", &v[..32]), ("last", &v[v.len() - 32..])] {
                let mut cells = vec![0u64; 9];
                for run in part.rchunks_exact(2 * lag) {
                    for i in 0..lag {
                        cells[3 * run[i] as usize + run[i + lag] as usize] += 1;
                    }
                }
                ctx.count(&format!("{} values of {} {}, {} apart", place, class, kind, lag), &cells);
            }
        }
    }
    for b in [64usize, 256, 1024, 4096, 65_536] {
        let (mut across, mut after, mut again) = (vec![0u64; 9], vec![0u64; 9], vec![0u64; 9]);
        for at in (b..v.len()).step_by(b) {
            across[3 * v[at - 1] as usize + v[at] as usize] += 1;
            again[3 * v[at - b] as usize + v[at] as usize] += 1;
            if at + 1 < v.len() {
                after[3 * v[at] as usize + v[at + 1] as usize] += 1;
            }
        }
        if v.len() > b {
            ctx.count(&format!("{} across multiples of {}", kind, b), &across);
            ctx.count(&format!("{} just after multiples of {}", kind, b), &after);
            if b > 64 {
                // (every other pair shares a value: their limit is lenient)
                ctx.count(&format!("{} at neighbouring multiples of {}", kind, b), &again);
            }
        }
    }
}
/// Sums of chi-squares of two degrees of freedom, in 1024ths: too large, or
/// too small.
fn balanced(name: &str, cells: &[u64]) -> Res {
    let n = cells[0] as f64;
    if n < 100.0 {
        return Ok(());
    }
    let (x, df) = (cells[1] as f64 / 1024.0, 2.0 * n);
    let a = 2.0 / (9.0 * df);
    let z = ((x / df).cbrt() - (1.0 - a)) / a.sqrt();
    ensure!(
        z.abs() < 9.0,
        "{}: how often the three values occur deviates by {:.4} on average from an even distribution, and should by 2 ({} vectors, {:.1} standard deviations)",
        name,
        x / n,
        cells[0],
        z
    );
    Ok(())
}
fn p04_finish(st: &BTreeMap<String, Vec<u64>>) -> Res {
    for (n, v) in st {
        // (overlapping neighbours inflate the statistic; its limit is lenient)
        if n == "first secret, last error" {
            uniform("first secret", &v[..3])?;
            uniform("last error", &v[3..])?;
        } else if n.starts_with("balance of") {
            balanced(n, v)?;
        } else if n == "secret x next coordinate's" || n.contains("at neighbouring multiples") {
            let half: Vec<u64> = v.iter().map(|x| x / 2).collect();
            uniform(n, &half)?;
        } else {
            uniform(n, v)?;
        }
    }
    Ok(())
}
/// Many objects at a small size: every single coordinate is uniform, and no
/// statistic of secret or error depends on the target.
pub fn p04_coords(c: &LweCase, ctx: &mut Ctx) -> Res {
    let server = Server::build(c)?;
    let h = server.height();
    let cp = diagonal(h, c.dim)?;
    let delta = (1u64 << (32 - c.pb)) as u32;
    let runs = 900;
    let seen = c.dim.min(h);
    let mut sc = vec![vec![0u64; 3]; seen];
    let mut ec = vec![vec![0u64; 3]; h];
    let mut at_target = vec![vec![0u64; 3]; c.m];
    for k in 0..runs {
        let t = k % c.m;
        let (q, pos) = server.ask(&cp, t)?;
        for j in 0..h {
            let v = if pos.contains(&j) { q[j].wrapping_sub(delta) } else { q[j] };
            let (s, e) = split(v as i32).ok_or_else(|| format!("query for target {}: coordinate {} is off", t, j))?;
            if j < seen {
                sc[j][tern(s)] += 1;
            }
            ec[j][tern(e)] += 1;
            if pos.contains(&j) {
                at_target[t][tern(e)] += 1;
            }
        }
    }
    for (i, v) in sc.iter().enumerate() {
        uniform(&format!("secret coordinate {}", i), v)?;
    }
    for (j, v) in ec.iter().enumerate() {
        uniform(&format!("error of row {}", j), v)?;
    }
    for (t, v) in at_target.iter().enumerate() {
        uniform(&format!("error at the positions of target {}", t), v)?;
    }
    ctx.nt();
    ctx.tag_n("queries", runs as u64);
    Ok(())
}
/// With the real matrix and a small dimension, the secret is found by search;
/// exactly one ternary secret explains the query.
pub fn p04_real(c: &LweCase, ctx: &mut Ctx) -> Res {
    let server = Server::build(c)?;
    let h = server.height();
    let cp = server.cp();
    let a = cp.as_matrix();
    ensure_eq!(a.len(), h, "rows of the common matrix");
    let delta = (1u64 << (32 - c.pb)) as u32;
    let n = c.dim;
    let mut rng = Mix::new(c.seed ^ 44);
    let mut secrets = Vec::new();
    for k in 0..c.objects {
        let t = if k == 0 { c.m - 1 } else { rng.below(c.m) };
        let (mut q, pos) = server.ask(&cp, t)?;
        for p in &pos {
            q[*p] = q[*p].wrapping_sub(delta);
        }
        let mut found = None;
        let total = 3usize.pow(n as u32);
        'search: for code in 0..total {
            let mut x = code;
            let mut s = vec![0u32; n];
            for v in s.iter_mut() {
                *v = [0, 1, u32::MAX][x % 3];
                x /= 3;
            }
            for j in 0..h {
                let e = q[j].wrapping_sub(dot(&a[j], &s));
                if e.wrapping_add(1) > 2 {
                    continue 'search;
                }
            }
            found = Some(s);
            break;
        }
        match found {
            None => return Err(format!("query {} for target {}: no ternary secret and error explain it", k, t)),
            Some(s) => secrets.push(s),
        }
    }
    ctx.tag_n("queries solved", c.objects as u64);
    if h >= 3 {
        ctx.nt();
    }
    Ok(())
}
/// A great many secrets and errors: fifteen secret coordinates and the error of
/// a row are read off each coordinate of a query, as digits in base four.
pub fn p04_bulk(c: &LweCase, ctx: &mut Ctx) -> Res {
    const PER: usize = PER_ROW;
    let server = Server::build(c)?;
    let h = server.height();
    let a: Vec<Vec<u32>> = (0..h)
        .map(|r| {
            let mut row = vec![0u32; c.dim];
            for k in 0..PER {
                if r * PER + k < c.dim {
                    row[r * PER + k] = 4 << (2 * k);
                }
            }
            row
        })
        .collect();
    let cp: CommonParams = e2s("making common parameters", bincode::deserialize(&bincode::serialize(&a).unwrap()))?;
    drop(a);
    let delta = (1u64 << (32 - c.pb)) as u32;
    let seen = c.dim.min(h * PER);
    let mut rng = Mix::new(c.seed ^ 444);
    let lags = [1usize, 2, 3, 4, 7, 8, 16, 64];
    let (mut cs, mut ce) = (vec![0u64; 3], vec![0u64; 3]);
    let (mut ls, mut le) = (vec![vec![0u64; 9]; lags.len()], vec![vec![0u64; 9]; lags.len()]);
    let (mut ps, mut pe) = (vec![vec![0u64; 3]; 16], vec![vec![0u64; 3]; 16]);
    let mut cse = vec![0u64; 9];
    // the first object to hold a fingerprint of its secret and error
    let mut known: BTreeMap<(u8, [u8; 64]), usize> = BTreeMap::new();
    for k in 0..c.objects {
        let t = rng.below(c.m);
        let (q, pos) = server.ask(&cp, t)?;
        ensure_eq!(q.len(), h, "length of query {} of {:?}", k, (c.m, c.dim));
        let (mut s, mut e) = (vec![0u8; seen], vec![0u8; h]);
        for (r, x) in q.iter().enumerate() {
            let mut v = if pos.contains(&r) { x.wrapping_sub(delta) } else { *x } as i32 as i64;
            for d in 0..=PER {
                let digit = (v + 1).rem_euclid(4);
                ensure!(digit < 3, "query {} for target {}: coordinate {} is off by {}", k, t, r, v);
                v = (v - (digit - 1)) / 4;
                if d == 0 {
                    e[r] = digit as u8;
                } else if let Some(x) = s.get_mut(r * PER + d - 1) {
                    *x = digit as u8;
                } else {
                    ensure!(digit == 1, "query {} for target {}: coordinate {} holds more than secret and error", k, t, r);
                }
            }
            ensure!(v == 0, "query {} for target {}: coordinate {} is off by {}", k, t, r, v);
        }
        for (n, v, all, lag, place) in [(0u8, &s, &mut cs, &mut ls, &mut ps), (1, &e, &mut ce, &mut le, &mut pe)] {
            for (i, x) in v.iter().enumerate() {
                all[*x as usize] += 1;
                place[i % 16][*x as usize] += 1;
            }
            for (l, cells) in lags.iter().zip(lag.iter_mut()) {
                // pairs that share no coordinate
                for run in v.chunks_exact(2 * l) {
                    for i in 0..*l {
                        cells[3 * run[i] as usize + run[i + l] as usize] += 1;
                    }
                }
            }
            if v.len() >= 64 {
                let name = (n, v[v.len() - 64..].try_into().unwrap());
                if let Some(other) = known.insert(name, k) {
                    return Err(format!(
                        "objects {} and {} share the last 64 coordinates of their {} (height {}, dimension {})",
                        other, k, ["secrets", "errors"][n as usize], h, c.dim
                    ));
                }
            }
        }
        order_counts("secrets", &s, ctx);
        order_counts("errors", &e, ctx);
        for (x, y) in s.iter().zip(&e) {
            cse[3 * *x as usize + *y as usize] += 1;
        }
    }
    let mut judge = |name: String, cells: &[u64]| -> Res {
        ctx.count(&name, cells);
        uniform(&name, cells).map_err(|m| format!("{} (height {}, dimension {})", m, h, c.dim))
    };
    judge("secrets".into(), &cs)?;
    judge("errors".into(), &ce)?;
    judge("secrets and errors".into(), &cse)?;
    for (i, l) in lags.iter().enumerate() {
        judge(format!("secrets {} apart", l), &ls[i])?;
        judge(format!("errors {} apart", l), &le[i])?;
    }
    for i in 0..16 {
        judge(format!("secrets at {} modulo 16", i), &ps[i])?;
        judge(format!("errors at {} modulo 16", i), &pe[i])?;
    }
    ctx.tag_n("secret coordinates", (seen * c.objects) as u64);
    ctx.tag_n("error coordinates", (h * c.objects) as u64);
    if seen * c.objects >= 100_000 || h * c.objects >= 100_000 {
        ctx.nt();
    }
    Ok(())
}
/// Several clients at once, who share nothing but the published parameters.
pub fn p04_clients(c: &LweCase, ctx: &mut Ctx) -> Res {
    let server = Server::build(c)?;
    let h = server.height();
    let cp = diagonal(h, c.dim)?;
    let delta = (1u64 << (32 - c.pb)) as u32;
    let clients = 2 + (c.seed % 7) as usize;
    let start = std::sync::Barrier::new(clients);
    let made = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..clients)
            .map(|t| {
                let (server, cp, start) = (&server, &cp, &start);
                sc.spawn(move || {
                    quiet_panics();
                    getrandom::det::seed(c.seed ^ 0x636c ^ (t as u64) << 48);
                    start.wait();
                    guarded(|| (0..c.objects).map(|k| server.ask(cp, (c.seed as usize >> 8).wrapping_add(k * 7 + t) % c.m)).collect::<Result<Vec<_>, String>>())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    let mut windows = Windows::default();
    let mut all: Vec<(String, Vec<i32>)> = Vec::new();
    let (mut cs, mut ce) = (vec![0u64; 3], vec![0u64; 3]);
    for (t, m) in made.into_iter().enumerate() {
        let m = m.map_err(|_| "thread died".to_string())??.map_err(|e| format!("client {} of {}: {}", t, clients, e))?;
        for (k, (q, pos)) in m.into_iter().enumerate() {
            ensure_eq!(q.len(), h, "length of query {} of client {}", k, t);
            let mut s = vec![9i32; c.dim];
            let mut e = vec![0i32; h];
            for j in 0..h {
                let v = if pos.contains(&j) { q[j].wrapping_sub(delta) } else { q[j] };
                let Some((sj, ej)) = split(v as i32) else {
                    return Err(format!(
                        "query {} of client {} of {} at once (positions {:?}): coordinate {} is {} away from secret times matrix plus ternary error",
                        k, t, clients, pos, j, v as i32
                    ));
                };
                let i = j % c.dim;
                ensure!(s[i] == 9 || s[i] == sj, "query {} of client {}: rows that share secret coordinate {} disagree on it", k, t, i);
                s[i] = sj;
                e[j] = ej;
            }
            s.truncate(h);
            s.iter().for_each(|x| cs[tern(*x)] += 1);
            e.iter().for_each(|x| ce[tern(*x)] += 1);
            windows.add(&format!("the secret of object {} of client {}", k, t), &s);
            windows.add(&format!("the error of object {} of client {}", k, t), &e);
            all.push((format!("secret {} of client {}", k, t), s));
            all.push((format!("error {} of client {}", k, t), e));
        }
    }
    windows.judge().map_err(|m| format!("{} ({} clients at once, height {}, dimension {})", m, clients, h, c.dim))?;
    uniform("secret", &cs).map_err(|m| format!("{} ({} clients at once)", m, clients))?;
    uniform("error", &ce).map_err(|m| format!("{} ({} clients at once)", m, clients))?;
    ctx.count("secret", &cs);
    ctx.count("error", &ce);
    ctx.tag_n("clients at once", clients as u64);
    ctx.tag_n("coordinates decomposed", (h * c.objects * clients) as u64);
    if h >= 48 && c.dim >= 48 {
        ctx.nt();
    }
    Ok(())
}
fn bulk_strat() -> BoxedStrategy<LweCase> {
    (lwe_strat((1, 20), (500, 6000), 1), lwe_strat((20_000, 100_000), (1, 40), 1), 0u8..5, 1usize..=400)
        .prop_map(|(mut a, mut b, shape, objects)| {
            // rows enough to show the whole secret, or any number
            a.m = if shape < 3 { a.dim / PER_ROW + 1 } else { a.m };
            a.bits = a.bits.min(8);
            b.bits = b.bits.min(8);
            let mut c = if shape == 4 { b } else { a };
            c.objects = objects.min((3_000_000 / c.m).max(1));
            c.script.clear();
            c
        })
        .boxed()
}
const PER_ROW: usize = 15;
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase {
    pub c: LweCase,
    /// entropy fails after this many bytes of what one object needs (in 1/1000)
    pub at: u16,
}
/// If entropy fails, now or half-way, no query comes out.
pub fn p04_entropy(f: &FailCase, ctx: &mut Ctx) -> Res {
    let c = f.c.clone();
    let at = f.at;
    let seed = c.seed;
    // the server is built elsewhere, so that nothing in the client's thread has
    // been seeded yet
    let server = {
        let c = c.clone();
        in_thread(seed, move || Server::build(&c))??
    };
    let server = std::sync::Arc::new(server);
    let helped = getrandom::det::helper_bytes();
    let need = {
        let server = server.clone();
        in_thread(seed ^ 1, move || -> Result<u64, String> {
            let cp = server.cp();
            let b = getrandom::det::bytes();
            server.ask(&cp, 0)?;
            Ok(getrandom::det::bytes() - b)
        })??
    };
    // threads that the code started itself (this kind of case runs alone)
    let helped = getrandom::det::helper_bytes() - helped;
    let out_of_helpers = |on: bool| {
        if helped > 0 {
            getrandom::det::fail_helpers(on);
        }
    };
    let total = (server.height() + c.dim) as u64;
    // either everything comes from the system, or it is expanded from no less
    // than a key
    ensure!(
        need + helped >= 16 || (need + helped) * 8 >= total,
        "a query over {} secret and error coordinates consumed {} bytes of entropy only",
        total,
        need + helped
    );
    // every object takes its own: one query succeeds, then entropy fails
    let after = {
        let server = server.clone();
        in_thread(seed ^ 3, move || -> Result<(), String> {
            let cp = server.cp();
            server.ask(&cp, 0).map_err(|e| format!("first query: {}", e))?;
            getrandom::det::fail(true);
            getrandom::det::fail_helpers(true);
            match guarded(|| server.ask(&cp, 0).map(|_| ())) {
                Ok(Ok(())) => Err("entropy failed after the first query, yet a second one was produced".into()),
                _ => Ok(()),
            }
        })?
    };
    getrandom::det::fail_helpers(false);
    after?;
    out_of_helpers(true);
    let out = {
        let server = server.clone();
        in_thread(seed ^ 2, move || -> Result<(), String> {
            let cp = server.cp();
            if at == 0 {
                getrandom::det::fail(true);
            } else {
                getrandom::det::fail_after(need * at as u64 / 1000);
            }
            server.ask(&cp, 0).map(|_| ())
        })
    };
    out_of_helpers(false);
    // a panic or an error is fine, a query is not
    if let Ok(Ok(())) = out {
        return Err(format!("entropy failed after {}/1000 of the bytes needed, yet a query was produced", at));
    }
    ctx.tag_if(at == 0, "fails at once");
    ctx.tag_if(at > 0, "fails half-way");
    ctx.nt();
    Ok(())
}
pub fn p04_property() -> Property {
    Property {
        id: "P04",
        rule: "A case is a server, an LWE dimension, targets and entropy (also scripted to the rejection boundaries). With crafted common parameters (16 times a diagonal) every query is decomposed into secret, error and rounding factors; counts of values, of pairs at many distances, at the ends and around the boundaries of blocks, and of how even blocks are, feed chi-square tests (alarm below 1e-13) per case and over the run; 'bulk' packs fifteen secret coordinates into each coordinate of the query, for counts in the tens of millions; 'real' recovers the secret under the real matrix by search; 'entropy' makes the random source fail. Non-trivial: at least two rows and two objects (three rows for 'real'; 100,000 coordinates for 'bulk'; always for 'coords' and 'entropy').",
        subs: vec![
            Sub::new("exact", 20000, 400000, || lwe_strat((1, 60), (1, 200), 8), p04_exact).finish(p04_finish).boxed(),
            Sub::new("large", 600, 12000, || lwe_strat((200, 8000), (1, 6000), 6), p04_exact).finish(p04_finish).boxed(),
            Sub::new("huge", 12, 240, || lwe_strat((60_000, 400_000), (1, 80_000), 2), p04_exact).workers(6).finish(p04_finish).boxed(),
            Sub::new("clients at once", 1500, 30000, || lwe_strat((48, 600), (48, 600), 12), p04_clients).workers(3).finish(p04_finish).boxed(),
            Sub::new("bulk", 400, 12000, bulk_strat, p04_bulk).finish(p04_finish).boxed(),
            Sub::new("coords", 1500, 30000, || lwe_strat((1, 24), (1, 40), 1), p04_coords).boxed(),
            Sub::new("real", 4000, 80000, || lwe_strat((4, 60), (1, 7), 6), p04_real).boxed(),
            Sub::new(
                "entropy",
                5000,
                100000,
                || {
                    (lwe_strat((1, 60), (1, 100), 1), prop_oneof![1 => Just(0u16), 3 => 0u16..1000])
                        .prop_map(|(c, at)| FailCase { c, at })
                        .boxed()
                },
                p04_entropy,
            )
            .workers(1)
            .boxed(),
        ],
    }
}

// ---- P05 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DecCase {
    pub kw: bool,
    pub pb: usize,
    pub width: usize,
    pub m: usize,
    pub dim: usize,
    pub zero_db: bool,
    pub seed: u64,
    pub partial: usize,
}
fn dec_strat() -> BoxedStrategy<DecCase> {
    (
        any::<bool>(),
        1usize..=31,
        sized(1, 300),
        1usize..12,
        1usize..24,
        proptest::bool::weighted(0.3),
        any::<u64>(),
        0usize..31,
    )
        .prop_map(|(kw, pb, width, m, dim, zero_db, seed, partial)| DecCase {
            kw,
            pb: if kw { 8 + (pb - 1) % 24 } else { pb },
            width,
            m,
            dim,
            zero_db,
            seed,
            partial,
        })
        .boxed()
}
/// s*(A*DB) for a parameter object: the secret is read off a clone's query
/// under the diagonal matrix.
fn unmask_rhs(q: &[u32], pos: &[usize], delta: u32, dim: usize, rhs: &[Vec<u32>]) -> Result<Vec<u32>, String> {
    let mut s = vec![0u32; dim];
    ensure!(q.len() >= dim, "harness: height {} below dimension {}", q.len(), dim);
    for i in 0..dim {
        let v = if pos.contains(&i) { q[i].wrapping_sub(delta) } else { q[i] } as i32;
        let (si, _) = split(v).ok_or("secret not ternary")?;
        s[i] = si as u32;
    }
    Ok(rhs.iter().map(|col| dot(&s, col)).collect())
}
/// One crafted coordinate: plaintext and noise.
fn craft(rng: &mut Mix, pb: usize) -> (u32, i64) {
    let p = 1u64 << pb;
    let v = match rng.below(6) {
        0 => 0,
        1 => p - 1,
        2 => p / 2,
        3 => 1 % p,
        _ => rng.next() % p,
    };
    let half = (1i64 << 32) / (1i64 << pb) / 2;
    let max = half - 1;
    let noise = match rng.below(6) {
        0 => max,
        1 => -max,
        2 => 0,
        3 => 1.min(max),
        4 => -(1.min(max)),
        _ => (rng.next() % (2 * max as u64 + 1)) as i64 - max,
    };
    (v as u32, noise)
}
pub fn p05(c: &DecCase, ctx: &mut Ctx) -> Res {
    // element size: `width` chunks, the last of them possibly partial
    let part = c.partial % c.pb;
    let bits = c.width * c.pb - if c.width * c.pb > part { part } else { 0 };
    let width = chunks(bits, c.pb);
    let m = c.m.max(c.dim); // the secret has to be visible in the diagonal
    let fillm = if c.zero_db { Fill::Zeros } else { Fill::Random };
    let elems = elements(m, bits, c.pb, fillm, c.seed);
    let mut rng = Mix::new(c.seed ^ 5);
    let delta = (1u64 << (32 - c.pb)) as u32;
    let modulus = 1u64 << c.pb;
    let mut values = Vec::new();
    for i in 0..width {
        let (mut v, e) = craft(&mut rng, c.pb);
        // the last chunk holds what is left of the element
        let left = bits - i * c.pb;
        if !c.kw && left < c.pb {
            v &= (1u32 << left) - 1;
        }
        values.push((v, e));
    }
    let noisy = |rhs: &[u32]| -> Result<Response, String> {
        let raw: Vec<u32> = values
            .iter()
            .zip(rhs)
            .map(|((v, e), r)| r.wrapping_add(v.wrapping_mul(delta)).wrapping_add(*e as u32))
            .collect();
        e2s("making a response", bincode::deserialize(&bincode::serialize(&raw).unwrap()))
    };
    let bytes_of = |row: &[u32]| -> Vec<u8> {
        let mut out = vec![0u8; elem_bytes(bits)];
        for j in 0..bits {
            if (row[j / c.pb] >> (j % c.pb)) & 1 == 1 {
                out[j / 8] |= 1 << (j % 8);
            }
        }
        out
    };
    if c.kw {
        let keys = keys256(m, Key256::Random, c.seed);
        let shard = build_kv(Entry::New, &keys, None, &elems, c.dim, bits, c.pb)?;
        let bp = shard.get_base_params();
        let cp = diagonal(bp.get_total_records(), c.dim)?;
        let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp, bp))?;
        let q = e2s("generate_query", qp.generate_query(&keys[0]))?;
        let fp = bp.get_filter_params();
        let rhs = unmask_rhs(q.as_slice(), &fp.get_hash_evals(&keys[0]), delta, c.dim, bp.get_rhs())?;
        let resp = noisy(&rhs)?;
        // masks of a stored, an absent and an extreme key
        for key in [keys[m - 1], rnd_key(&mut rng), [0; 4], [u64::MAX; 4]] {
            let want: Vec<u32> = values
                .iter()
                .enumerate()
                .map(|(i, (v, _))| {
                    let mask = xorf::BinaryFuseP32::get_key_fingerprint(&key, fp.seed, i as u64);
                    ((*v as u64 + mask % modulus) % modulus) as u32
                })
                .collect();
            let got = e2s("parse_resp_as_row", qp.parse_resp_as_row(&resp, &key))?;
            for i in 0..width {
                ensure_eq!(
                    got[i],
                    want[i],
                    "coordinate {} of {} (width {}, masked value {}, noise {}) for key {:x?}",
                    i,
                    width,
                    c.pb,
                    values[i].0,
                    values[i].1,
                    key
                );
            }
            ensure_eq!(got.len(), width, "number of coordinates");
            let got = e2s("parse_resp_as_bytes", qp.parse_resp_as_bytes(&resp, &key))?;
            ensure_eq!(got, bytes_of(&want), "bytes (width {}, {} bits)", c.pb, bits);
        }
    } else {
        let shard = build_shard(&b64s(&elems), c.dim, bits, c.pb, false)?;
        let bp = shard.get_base_params();
        let cp = diagonal(m, c.dim)?;
        let mut qp = e2s("generate_index_query_params", generate_index_query_params(&cp, bp))?;
        let q = e2s("generate_query", qp.generate_query(m - 1))?;
        let rhs = unmask_rhs(q.as_slice(), &[m - 1], delta, c.dim, bp.get_rhs())?;
        let resp = noisy(&rhs)?;
        let got = qp.parse_resp_as_row(&resp);
        ensure_eq!(got.len(), width, "number of coordinates");
        for i in 0..width {
            ensure_eq!(
                got[i],
                values[i].0,
                "coordinate {} of {} (width {}, value {}, noise {}, masked by {})",
                i,
                width,
                c.pb,
                values[i].0,
                values[i].1,
                rhs[i]
            );
        }
        let want: Vec<u32> = values.iter().map(|v| v.0).collect();
        ensure_eq!(qp.parse_resp_as_bytes(&resp), bytes_of(&want), "bytes (width {}, {} bits)", c.pb, bits);
        ensure_eq!(qp.parse_resp_as_base64(&resp), b64(&bytes_of(&want)), "base64 (width {}, {} bits)", c.pb, bits);
    }
    let neg = values.iter().filter(|v| v.1 < 0).count();
    ctx.tag_n("coordinates", width as u64);
    ctx.tag_n("negative noise", neg as u64);
    ctx.tag_n("noise at the edge", values.iter().filter(|v| v.1.abs() as f64 == half_step(c.pb) - 1.0).count() as u64);
    ctx.tag_n("value 0 with negative noise", values.iter().filter(|v| v.0 == 0 && v.1 < 0).count() as u64);
    ctx.tag_n("top value with positive noise", values.iter().filter(|v| v.0 as u64 == modulus - 1 && v.1 > 0).count() as u64);
    ctx.tag_if(c.pb >= 24, "width >= 24");
    if values.iter().any(|v| v.1 != 0) {
        ctx.nt();
    }
    Ok(())
}
/// Every value of a width, with noise at both edges.
pub fn p05_all_values(c: &DecCase, ctx: &mut Ctx) -> Res {
    let pb = if c.kw { 8 + c.pb % 3 } else { 1 + c.pb % 10 };
    let p = 1usize << pb;
    let bits = p * pb;
    let delta = (1u64 << (32 - pb)) as u32;
    let max = (1i64 << 32) / (1i64 << pb) / 2 - 1;
    let zeros = elements(1, bits, pb, Fill::Zeros, 0);
    for noise in [max, -max, 0, max / 2, -max / 2, 1, -1] {
        // all-zero database: the masked right-hand side vanishes for the index
        // kind whatever the secret
        if c.kw {
            let key = [c.seed, 1, 2, 3];
            let shard = build_kv(Entry::New, &[key], None, &zeros, 1, bits, pb)?;
            let bp = shard.get_base_params();
            let cp = diagonal(bp.get_total_records(), 1)?;
            let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(&cp, bp))?;
            let q = e2s("generate_query", qp.generate_query(&key))?;
            let fp = bp.get_filter_params();
            let rhs = unmask_rhs(q.as_slice(), &fp.get_hash_evals(&key), delta, 1, bp.get_rhs())?;
            let raw: Vec<u32> =
                (0..p).map(|v| rhs[v].wrapping_add((v as u32).wrapping_mul(delta)).wrapping_add(noise as u32)).collect();
            let resp: Response = e2s("making a response", bincode::deserialize(&bincode::serialize(&raw).unwrap()))?;
            let got = e2s("parse_resp_as_row", qp.parse_resp_as_row(&resp, &key))?;
            for v in 0..p {
                let mask = xorf::BinaryFuseP32::get_key_fingerprint(&key, fp.seed, v as u64);
                ensure_eq!(got[v] as u64, (v as u64 + mask % p as u64) % p as u64, "value {} with noise {} (width {})", v, noise, pb);
            }
        } else {
            let shard = build_shard(&b64s(&zeros), 1, bits, pb, false)?;
            let bp = shard.get_base_params();
            let cp = CommonParams::from(bp);
            let qp = e2s("generate_index_query_params", generate_index_query_params(&cp, bp))?;
            let raw: Vec<u32> = (0..p).map(|v| (v as u32).wrapping_mul(delta).wrapping_add(noise as u32)).collect();
            let resp: Response = e2s("making a response", bincode::deserialize(&bincode::serialize(&raw).unwrap()))?;
            let got = qp.parse_resp_as_row(&resp);
            for v in 0..p {
                ensure_eq!(got[v], v as u32, "value {} with noise {} (width {})", v, noise, pb);
            }
        }
        ctx.tag_n("values", p as u64);
    }
    ctx.nt();
    Ok(())
}
pub fn p05_property() -> Property {
    Property {
        id: "P05",
        rule: "A case is a parameter object of either kind and a crafted response: the object's own mask (recovered exactly), plus rounding factor times a plaintext, plus noise strictly inside half a step (edges, zero, +-1, random) in every coordinate; 'all-values' enumerates all plaintexts of a width with seven noises. Non-trivial: some noise is not zero.",
        subs: vec![
            Sub::new("crafted", 80000, 1600000, dec_strat, p05).boxed(),
            Sub::new("wide", 40, 800, || dec_strat().prop_map(|mut c| { c.width = 40_000 + c.width * 200; c.m = 1 + c.m % 2; c.dim = 1 + c.dim % 3; c }).boxed(), p05).workers(6).boxed(),
            Sub::new("together", 3000, 60000, || several(dec_strat()), |c, ctx| together(c, 3, ctx, p05)).workers(3).boxed(),
            Sub::new("all-values", 2000, 40000, dec_strat, p05_all_values).boxed(),
        ],
    }
}

// ---- P21 -----------------------------------------------------------------

/// A frame around the words of a message may take this many bytes.
const FRAME: usize = 64;
fn framed(what: &str, len: usize, words: usize) -> Res {
    ensure!(
        len >= 4 * words && len <= 4 * words + FRAME,
        "{} takes {} bytes for {} words of four bytes",
        what,
        len,
        words
    );
    Ok(())
}
/// The sizes of all messages, and that they hold nothing but their words.
pub fn p21(c: &LweCase, ctx: &mut Ctx) -> Res {
    use crate::server::make_query;
    // servers of the same shape that hold different things
    let filled = |fill: Fill, seed: u64| -> Result<Server, String> {
        let elems = elements(c.m, c.bits, c.pb, fill, seed);
        if c.kw {
            let keys = keys256(c.m, if fill == Fill::Random { Key256::Random } else { Key256::Counter(0) }, seed);
            Ok(Server::K(build_kv(Entry::New, &keys, None, &elems, c.dim, c.bits, c.pb)?, keys))
        } else {
            Ok(Server::I(build_shard(&b64s(&elems), c.dim, c.bits, c.pb, false)?))
        }
    };
    let width = chunks(c.bits, c.pb);
    let mut rng = Mix::new(c.seed ^ 21);
    let mut sizes: Option<(usize, usize, usize, usize)> = None;
    for (fill, seed) in [(Fill::Random, c.seed), (Fill::Zeros, c.seed), (Fill::Ones, c.seed ^ 9)] {
        let server = filled(fill, seed)?;
        let h = server.height();
        let (params, cp) = match &server {
            Server::I(s) => (bincode::serialize(s.get_base_params()).unwrap().len(), CommonParams::from(s.get_base_params())),
            Server::K(s, _) => (bincode::serialize(s.get_base_params()).unwrap().len(), CommonParams::from(s.get_base_params())),
        };
        let common = bincode::serialize(&cp).unwrap().len();
        let respond = |q: &Query| match &server {
            Server::I(s) => e2s("respond", s.respond(q)),
            Server::K(s, _) => e2s("respond", s.respond(q)),
        };
        let flat = diagonal(h, c.dim)?;
        let mut targets = vec![0, c.m - 1];
        targets.extend((0..c.objects).map(|_| rng.below(c.m)));
        let mut queries: Vec<(String, Query)> = Vec::new();
        for t in targets {
            for cp in [&cp, &flat] {
                let q = match &server {
                    Server::I(s) => {
                        let mut qp = e2s("generate_index_query_params", generate_index_query_params(cp, s.get_base_params()))?;
                        e2s("generate_query", qp.generate_query(t))?
                    }
                    Server::K(s, keys) => {
                        let mut qp = e2s("generate_kv_query_params", generate_kv_query_params(cp, s.get_base_params()))?;
                        let absent = rnd_key(&mut rng);
                        e2s("generate_query", qp.generate_query(if rng.below(3) == 0 { &absent } else { &keys[t] }))?
                    }
                };
                // the words, and nothing else
                let wire = bincode::serialize(&q).unwrap();
                let plain = bincode::serialize(&make_query(q.as_slice())?).unwrap();
                ensure!(wire == plain, "the query for target {} is sent as {} bytes, other than a query of the same words ({} bytes)", t, wire.len(), plain.len());
                queries.push((format!("the query for target {}", t), q));
            }
        }
        for (n, v) in [("zeros", vec![0u32; h]), ("ones", vec![1; h]), ("largest words", vec![u32::MAX; h])] {
            queries.push((format!("a query of {}", n), make_query(&v)?));
        }
        for (what, q) in &queries {
            let wire = bincode::serialize(q).unwrap();
            framed(what, wire.len(), h)?;
            let resp = respond(q)?;
            framed(&format!("the response to {}", what), resp.len(), width)?;
            let got = decode(resp.clone())?;
            ensure_eq!(got.as_slice().len(), width, "words in the response to {}", what);
            let again = bincode::serialize(&got).unwrap();
            ensure!(again == resp, "the response to {} holds more than its words", what);
            let now = (wire.len(), resp.len(), params, common);
            match sizes {
                None => sizes = Some(now),
                Some(s) => ensure_eq!(now, s, "bytes of {}, of its response, the parameters and the common matrix, and of others for databases of the same shape ({:?})", what, fill),
            }
        }
        ctx.tag_n("messages measured", 2 * queries.len() as u64);
        ctx.tag(if c.kw { "keyword" } else { "index" });
    }
    if c.m >= 2 {
        ctx.nt();
    }
    Ok(())
}
pub fn p21_property() -> Property {
    Property {
        id: "P21",
        rule: "A case is three servers of one shape (rows or pairs, element bits, width, dimension) that hold random values, zeros and ones; queries for several targets and absent keys, under the real matrix and a crafted one that leaves most words close to zero, and queries of zeros, ones and largest words; every binary message is measured and compared with a message of the same words. Non-trivial: at least two rows.",
        subs: vec![
            Sub::new("small", 12000, 240000, || lwe_strat((1, 60), (1, 60), 6), p21).boxed(),
            Sub::new("wide", 400, 8000, || (lwe_strat((1, 12), (1, 12), 4), sized(1_000, 40_000)).prop_map(|(mut c, bits)| { c.bits = bits; c }).boxed(), p21).boxed(),
            Sub::new("tall", 120, 2400, || lwe_strat((1_000, 40_000), (1, 24), 3), p21).boxed(),
            Sub::new("deep", 200, 4000, || lwe_strat((1, 300), (200, 2048), 3), p21).boxed(),
        ],
    }
}
