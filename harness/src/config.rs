//! P17 (flags and environment), P19 (the data generation script).
use crate::core::*;
use crate::gen::*;
use crate::pir::scratch;
use keyword_pir_lwe::api::DatabaseMatrix;
use keyword_pir_lwe::db::IndexDatabase;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashSet;
use std::process::{Command, Stdio};

/// Set in the environment of a helper process.
pub const HELPER: &str = "CHALAMET_VERIF_HELPER";

/// What a helper process does: parses its own flags or environment and prints
/// what it got.
pub fn helper(kind: &str) -> ! {
    let f = match kind {
        "flags" => pi_rs_cli_utils::parse_cli_flags(),
        _ => pi_rs_cli_utils::parse_from_env(),
    };
    println!(
        "{}",
        serde_json::json!([f.m, f.elem_size, f.plaintext_bits, f.lwe_dim, f.offline as u8, f.keyword as u8])
    );
    std::process::exit(0)
}

// ---- P17 -----------------------------------------------------------------

/// A value as given.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Given {
    Number(u64),
    Padded(u64),
    Text(u8),
    Missing,
}
const TEXTS: [&str; 20] = [
    "", "abc", "1.5", "1e3", "0x10", "12a", "a12", "-1", "-16", "99999999999999999999999", "18446744073709551616", "five",
    "1_000", "1,000", "\u{0663}", "true", "None", "10 20", "--5", "16;",
];
impl Given {
    fn text(&self) -> Option<String> {
        match self {
            Given::Number(n) => Some(n.to_string()),
            Given::Padded(n) => Some(format!("00{}", n)),
            Given::Text(i) => Some(TEXTS[*i as usize % TEXTS.len()].to_string()),
            Given::Missing => None,
        }
    }
    fn number(&self) -> Option<u64> {
        match self {
            Given::Number(n) | Given::Padded(n) => Some(*n),
            _ => None,
        }
    }
}
fn pow2(e: u64) -> Option<u64> {
    if e < 64 {
        Some(1 << e)
    } else {
        None
    }
}
fn given(bad: bool, exp: bool) -> BoxedStrategy<Given> {
    let number = if exp {
        prop_oneof![
            6 => 0u64..64,
            if bad {1} else {0} => prop_oneof![64u64..200, Just(64), Just(1 << 32), Just((1 << 32) + 5), any::<u64>().prop_map(|x| x | 1 << 40)]
        ]
        .boxed()
    } else {
        prop_oneof![
            3 => 0u64..5000,
            2 => (0u32..64).prop_map(|e| 1 << e),
            1 => any::<u64>(),
            1 => Just(u64::MAX),
            1 => Just((1u64 << 32) + 1)
        ]
        .boxed()
    };
    let n = number.prop_map(Given::Number);
    if bad {
        prop_oneof![
            14 => n,
            1 => (0u64..60).prop_map(Given::Padded),
            2 => any::<u8>().prop_map(Given::Text),
            1 => Just(Given::Missing)
        ]
        .boxed()
    } else {
        prop_oneof![20 => n, 1 => (0u64..60).prop_map(Given::Padded)].boxed()
    }
}
fn spawn(mode: &str, args: &[String], envs: &[(String, String)]) -> Result<Option<Vec<u64>>, String> {
    use std::os::unix::ffi::OsStringExt;
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe);
    c.env_clear().env(HELPER, mode).stdin(Stdio::null());
    for (k, v) in envs {
        // U+FFFF stands for a byte that is not Unicode
        let bytes = v.replace('\u{ffff}', "\u{1}").into_bytes();
        let bytes: Vec<u8> = bytes.into_iter().map(|b| if b == 1 { 0xff } else { b }).collect();
        c.env(k, std::ffi::OsString::from_vec(bytes));
    }
    c.args(args);
    let o = c.output().map_err(|e| format!("spawning a helper: {}", e))?;
    if !o.status.success() {
        return Ok(None);
    }
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    // --help and --version end well, without a configuration
    Ok(serde_json::from_str(text.trim()).ok())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FlagCase {
    /// matrix height, element size, plaintext bits, dimension
    pub given: Vec<Given>,
    /// -m 5, -m5, --matrix_height 5, --matrix_height=5
    pub style: Vec<u8>,
    pub order: u64,
}
const FLAGS: [(&str, &str, u64, bool); 4] =
    [("-m", "--matrix_height", 16, true), ("-e", "--ele_size", 13, true), ("-p", "--plaintext_bits", 10, false), ("-d", "--dim", 2048, false)];
fn flag_strat() -> BoxedStrategy<FlagCase> {
    let one = |bad, exp| prop_oneof![1 => Just(Given::Missing), 4 => given(bad, exp)].boxed();
    let good = (one(false, true), one(false, true), one(false, false), one(false, false));
    let bad = (one(true, true), one(true, true), one(true, false), one(true, false));
    (prop_oneof![3 => good, 2 => bad], proptest::collection::vec(0u8..4, 4), any::<u64>())
        .prop_map(|((a, b, c, d), style, order)| FlagCase { given: vec![a, b, c, d], style, order })
        .boxed()
}
pub fn p17_flags(c: &FlagCase, ctx: &mut Ctx) -> Res {
    let mut groups: Vec<Vec<String>> = Vec::new();
    let mut want: Option<Vec<u64>> = Some(Vec::new());
    for (i, (short, long, default, exp)) in FLAGS.iter().enumerate() {
        let g = &c.given[i];
        if let Some(t) = g.text() {
            groups.push(match c.style[i] % 4 {
                0 => vec![short.to_string(), t],
                1 if !t.is_empty() => vec![format!("{}{}", short, t)],
                2 => vec![long.to_string(), t],
                _ => vec![format!("{}={}", long, t)],
            });
        } else {
            ctx.tag("flag left out");
        }
        let n = match g {
            Given::Missing => Some(*default),
            g => g.number(),
        };
        let n = if *exp { n.and_then(pow2) } else { n };
        want = want.and_then(|mut v| {
            v.push(n?);
            Some(v)
        });
    }
    Mix::new(c.order).shuffle(&mut groups);
    let args: Vec<String> = groups.concat();
    let want = want.map(|mut v| {
        v.extend([1, 1]);
        v
    });
    let got = spawn("flags", &args, &[])?;
    ensure_eq!(
        got,
        want,
        "parameters (rows, element size, plaintext bits, dimension, offline, keyword) read from the flags {:?}, and given",
        args
    );
    ctx.tag(if want.is_some() { "accepted" } else { "refused" });
    if c.given.iter().any(|g| !matches!(g, Given::Missing)) {
        ctx.nt();
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EnvCase {
    pub given: Vec<Given>,
    pub bools: Vec<u8>,
    pub noise: bool,
}
const BOOLS: [&str; 12] = ["true", "false", "true", "false", "true", "false", "", "1", "TRUE", "yes", "0", "truee"];
fn env_strat() -> BoxedStrategy<EnvCase> {
    let all = |bad: bool| {
        (
            given(bad, true),
            given(bad, false),
            given(bad, false),
            given(bad, false),
            proptest::collection::vec(if bad { prop_oneof![9 => 0u8..4, 1 => 4u8..13].boxed() } else { (0u8..4).boxed() }, 2),
        )
    };
    (prop_oneof![1 => all(false), 1 => all(true)], any::<bool>())
        .prop_map(|((a, b, c, d, bools), noise)| EnvCase { given: vec![a, b, c, d], bools, noise })
        .boxed()
}
pub fn p17_env(c: &EnvCase, ctx: &mut Ctx) -> Res {
    let names = [("PIR_NUMBER_OF_ELEMENTS_EXP", true), ("PIR_ELEM_SIZE_BITS", false), ("PIR_PLAINTEXT_BITS", false), ("PIR_LWE_DIM", false)];
    let mut envs = Vec::new();
    let mut want: Option<Vec<u64>> = Some(Vec::new());
    let mut push = |n: Option<u64>| {
        want = want.take().and_then(|mut v| {
            v.push(n?);
            Some(v)
        })
    };
    for (i, (name, exp)) in names.iter().enumerate() {
        if let Some(t) = c.given[i].text() {
            envs.push((name.to_string(), t));
        }
        let n = c.given[i].number();
        push(if *exp { n.and_then(pow2) } else { n });
    }
    for (i, name) in ["BENCH_DB_GEN", "BENCH_KV"].iter().enumerate() {
        let b = c.bools[i] as usize;
        if b == 12 {
            push(None);
            continue; // missing
        }
        envs.push((name.to_string(), BOOLS[b].to_string()));
        push(match BOOLS[b] {
            "true" => Some(1),
            "false" => Some(0),
            _ => None,
        });
    }
    if c.noise {
        for (k, v) in [("PIR_NUM_SHARDS", "8"), ("PIR_M", "3"), ("BENCH", "false"), ("RUST_BACKTRACE", "0"), ("PIR_ELEM_SIZE", "77")] {
            envs.push((k.into(), v.into()));
        }
    }
    let got = spawn("env", &[], &envs)?;
    ensure_eq!(
        got,
        want,
        "parameters (rows, element size, plaintext bits, dimension, offline, keyword) read from the environment {:?}, and given",
        envs
    );
    ctx.tag(if want.is_some() { "accepted" } else { "refused" });
    if want.is_some() || envs.len() >= 5 {
        ctx.nt();
    }
    Ok(())
}
/// The conversions by themselves.
pub fn p17_values(c: &(Given, u8), ctx: &mut Ctx) -> Res {
    if let Some(t) = c.0.text() {
        let got = guarded(|| pi_rs_cli_utils::parse_exp_to_usize(t.clone())).ok();
        let want = c.0.number().and_then(pow2).map(|x| x as usize);
        ensure_eq!(got, want, "two to the power of {:?}", t);
        ctx.tag(if want.is_some() { "accepted" } else { "refused" });
        ctx.nt();
    }
    let b = BOOLS[c.1 as usize % 12];
    let got = guarded(|| pi_rs_cli_utils::parse_val_to_bool(b.to_string())).ok();
    let want = match b {
        "true" => Some(true),
        "false" => Some(false),
        _ => None,
    };
    ensure_eq!(got, want, "{:?} as a switch", b);
    Ok(())
}
pub fn p17_property() -> Property {
    Property {
        id: "P17",
        rule: "A case is a set of flags (values, spelling, order, some left out) or of environment variables (with unrelated ones around), given to a helper process that parses them with the real parser and prints every field; values are numbers over the whole range (with edges), zero-padded ones, twenty kinds of text that is no such number, unrepresentable exponents, and missing ones. Compared with the exact values, or with the process stopping. Non-trivial: at least one flag given; for the environment, a complete run or at least five variables set.",
        subs: vec![
            Sub::new("values", 50000, 1000000, || (given(true, true), 0u8..12).boxed(), p17_values).boxed(),
            Sub::new("flags", 25000, 500000, flag_strat, p17_flags).boxed(),
            Sub::new("environment", 25000, 500000, env_strat, p17_env).boxed(),
        ],
    }
}

// ---- P19 -----------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCase {
    pub exp: usize,
    /// element size in bits, or None for 2^size_exp bytes
    pub bits: Option<usize>,
    pub size_exp: usize,
    pub ones: bool,
    /// 0 absolute path, 1 relative to the directory it runs in, 2 left out
    pub path: u8,
    pub existing: bool,
    pub pb: usize,
}
fn gen_strat() -> BoxedStrategy<GenCase> {
    (
        0usize..=9,
        prop_oneof![3 => (1usize..=300).prop_map(|b| Some(8 * b)), 1 => sized(1, 2000).prop_map(Some), 2 => Just(None)],
        0usize..=9,
        any::<bool>(),
        0u8..3,
        any::<bool>(),
        1usize..=16,
    )
        .prop_map(|(exp, bits, size_exp, ones, path, existing, pb)| GenCase { exp, bits, size_exp, ones, path, existing, pb })
        .boxed()
}
pub fn p19(c: &GenCase, ctx: &mut Ctx) -> Res {
    let dir = scratch("p19");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = p19_in(c, &dir, ctx);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn p19_in(c: &GenCase, dir: &std::path::Path, ctx: &mut Ctx) -> Res {
    let name = if c.path % 3 == 2 { "rand_db.json" } else { "out-\u{e9} file.json" };
    let path = dir.join(name);
    if c.existing {
        std::fs::write(&path, "x".repeat(3_000_000)).map_err(|e| e.to_string())?;
    }
    let size = match c.bits {
        Some(b) => elem_bytes(b),
        None => 1 << c.size_exp,
    };
    let run = |out: Option<String>| -> Res {
        let mut cmd = Command::new("python3");
        cmd.env_clear().env("PATH", std::env::var("PATH").unwrap_or_default());
        cmd.env("PYTHONDONTWRITEBYTECODE", "1").env("LC_ALL", "C.UTF-8");
        cmd.current_dir(dir).stdin(Stdio::null());
        cmd.env("DB_ALL_ONES", if c.ones { "1" } else { "0" });
        cmd.env("DB_NUM_ENTRIES_EXP", c.exp.to_string());
        match c.bits {
            Some(b) => {
                cmd.env("DB_ELEMENT_SIZE_BITS", b.to_string());
            }
            None => {
                cmd.env("DB_ELEMENT_SIZE_EXP", c.size_exp.to_string());
            }
        }
        if let Some(o) = out {
            cmd.env("DB_OUTPUT_PATH", o);
        }
        cmd.arg("/repo/data/generate_db.py");
        let o = cmd.output().map_err(|e| format!("spawning python3: {}", e))?;
        ensure!(
            o.status.success(),
            "the script failed for {:?}: {}",
            c,
            String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or("")
        );
        Ok(())
    };
    run(match c.path % 3 {
        0 => Some(path.to_str().unwrap().to_string()),
        1 => Some(name.to_string()),
        _ => None,
    })?;
    let list = |p: &std::path::Path| -> Result<Vec<Vec<u8>>, String> {
        let text = std::fs::read_to_string(p).map_err(|e| format!("reading what the script wrote to {:?}: {}", p, e))?;
        let v: Value = e2s("parsing what the script wrote", serde_json::from_str(&text))?;
        let strs: Vec<String> = e2s("a list of strings", serde_json::from_value(v))?;
        strs.iter().map(|s| e2s("decoding base64", base64::decode(s))).collect()
    };
    let elems = list(&path)?;
    ensure_eq!(elems.len(), 1usize << c.exp, "number of elements for exponent {}", c.exp);
    for (i, e) in elems.iter().enumerate() {
        ensure_eq!(e.len(), size, "bytes of element {} ({:?})", i, c);
        if c.ones {
            ensure!(e.iter().all(|b| *b == 0xff), "element {} is not all ones", i);
        }
    }
    if !c.ones && size >= 12 {
        let set: HashSet<&Vec<u8>> = elems.iter().collect();
        ensure_eq!(set.len(), elems.len(), "number of distinct random elements of {} bytes", size);
        ensure!(!elems.iter().any(|e| e.iter().all(|b| *b == e[0])), "a random element of {} bytes repeats one byte", size);
        // another run draws other elements
        run(Some("second.json".into()))?;
        let second = list(&dir.join("second.json"))?;
        ensure!(second.iter().all(|e| !set.contains(e)), "two runs of the script share elements");
        // nothing of twelve bytes comes twice, within or across elements and runs
        let mut windows: Vec<(u128, usize, usize)> = Vec::new();
        for (i, e) in elems.iter().chain(&second).enumerate() {
            let mut w = 0u128;
            for (j, b) in e.iter().enumerate() {
                w = (w << 8 | *b as u128) & ((1 << 96) - 1);
                if j >= 11 {
                    windows.push((w, i, j - 11));
                }
            }
        }
        windows.sort_unstable();
        for w in windows.windows(2) {
            ensure!(
                w[0].0 != w[1].0,
                "the twelve bytes from {} on of random element {} are those from {} on of element {} ({} elements in each of two runs)",
                w[0].2,
                w[0].1,
                w[1].2,
                w[1].1,
                elems.len()
            );
        }
        let mut cells = vec![0u64; 256];
        elems.iter().chain(&second).flatten().for_each(|b| cells[*b as usize] += 1);
        crate::filters::judge_cells("bytes of random elements", &cells)?;
        ctx.count("bytes of random elements", &cells);
        let mut ends = vec![0u64; 512];
        for e in elems.iter().chain(&second) {
            ends[e[0] as usize] += 1;
            ends[256 + e[size - 1] as usize] += 1;
        }
        ctx.count("first and last bytes of random elements", &ends);
        ctx.tag("two random runs");
    }
    let files = std::fs::read_dir(dir).map_err(|e| e.to_string())?.count();
    ensure!(files <= 2, "the script left {} files behind", files);
    // it loads as a database
    let bits = c.bits.unwrap_or(8 * size);
    if bits % 8 == 0 {
        let db = e2s("loading the file", IndexDatabase::from_file(path.to_str().unwrap(), elems.len(), bits, c.pb))?;
        ensure_eq!(db.get_elem_size(), bits, "element size of the loaded database");
        for (i, e) in elems.iter().enumerate() {
            ensure_eq!(db.get_db_entry(i), b64(e), "element {} read back", i);
        }
        ctx.tag("loaded as a database");
    }
    ctx.tag(if c.ones { "all ones" } else { "random" });
    ctx.tag(["absolute path", "relative path", "default path"][c.path as usize % 3]);
    ctx.tag_if(c.existing, "replaced a longer file");
    if elems.len() >= 2 {
        ctx.nt();
    }
    Ok(())
}
/// What the script (run in its own way) wrote: number and size of elements,
/// and what they are made of; and that it loads.
fn p19_output(path: &std::path::Path, count: usize, size: usize, ones: bool, what: &str) -> Res {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: reading {:?}: {}", what, path, e))?;
    let strs: Vec<String> = e2s("a list of strings", serde_json::from_str(&text))?;
    ensure_eq!(strs.len(), count, "{}: number of elements", what);
    let mut set = HashSet::new();
    for (i, s) in strs.iter().enumerate() {
        let e = e2s("decoding base64", base64::decode(s))?;
        ensure_eq!(e.len(), size, "{}: bytes of element {}", what, i);
        if ones {
            ensure!(e.iter().all(|b| *b == 0xff), "{}: element {} is not all ones", what, i);
        } else if size >= 16 {
            ensure!(set.insert(e), "{}: element {} was there before", what, i);
        }
    }
    let db = e2s("loading the file", IndexDatabase::from_file(path.to_str().unwrap(), count, 8 * size, 8))?;
    for i in [0, count / 2, count - 1] {
        ensure_eq!(db.get_db_entry(i), strs[i], "{}: element {} read back", what, i);
    }
    Ok(())
}
/// The script as the Makefile runs it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MakeCase {
    pub exp: usize,
    pub bits: usize,
    pub ones: bool,
    /// a name for the file, if it is not left to the Makefile
    pub name: Option<u8>,
}
fn in_scratch<F: FnOnce(&std::path::Path) -> Res>(f: F) -> Res {
    let dir = scratch("p19");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let r = f(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}
fn bare(program: &str, dir: &std::path::Path) -> Command {
    let mut cmd = Command::new(program);
    cmd.env_clear().env("PATH", std::env::var("PATH").unwrap_or_default());
    cmd.env("PYTHONDONTWRITEBYTECODE", "1").env("LC_ALL", "C.UTF-8");
    cmd.current_dir(dir).stdin(Stdio::null());
    cmd
}
pub fn p19_make(c: &MakeCase, ctx: &mut Ctx) -> Res {
    in_scratch(|dir| {
        let copy = |f: &str| std::fs::copy(format!("/repo/{}", f), dir.join(f)).map_err(|e| format!("copying {}: {}", f, e));
        std::fs::create_dir_all(dir.join("data")).map_err(|e| e.to_string())?;
        copy("Makefile")?;
        copy("data/generate_db.py")?;
        let mut cmd = bare("make", dir);
        cmd.arg("-s").arg("gen-db").arg(format!("NUMBER_OF_ELEMENTS_EXP={}", c.exp)).arg(format!("ELEMENT_SIZE_BITS={}", c.bits));
        if c.ones {
            cmd.arg("DB_ALL_ONES=1");
        }
        let name = match c.name {
            None => "rand_db.json".to_string(),
            Some(n) => {
                let name = format!("db-{}.json", n);
                cmd.arg(format!("DB_FILE_NAME={}", name));
                name
            }
        };
        let o = cmd.output().map_err(|e| format!("spawning make: {}", e))?;
        ensure!(o.status.success(), "make gen-db failed for {:?}: {}", c, String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or(""));
        p19_output(&dir.join("data").join(name), 1 << c.exp, elem_bytes(c.bits), c.ones, &format!("make gen-db for {:?}", c))?;
        ctx.tag(if c.ones { "all ones" } else { "random" });
        if c.exp > 0 {
            ctx.nt();
        }
        Ok(())
    })
}
/// Settings that are left out, or empty: 2^16 elements of 2^13 bytes.
pub fn p19_defaults(c: &(Option<usize>, Option<usize>, bool, bool), ctx: &mut Ctx) -> Res {
    let &(exp, size_exp, ones, empty) = c;
    in_scratch(|dir| {
        let mut cmd = bare("python3", dir);
        cmd.env("DB_ALL_ONES", if ones { "1" } else { "0" });
        for (n, v) in [("DB_NUM_ENTRIES_EXP", exp), ("DB_ELEMENT_SIZE_EXP", size_exp), ("DB_ELEMENT_SIZE_BITS", None)] {
            match v {
                Some(v) => {
                    cmd.env(n, v.to_string());
                }
                None if empty => {
                    cmd.env(n, "");
                }
                None => {}
            }
        }
        if empty {
            cmd.env("DB_OUTPUT_PATH", "");
        }
        cmd.arg("/repo/data/generate_db.py");
        let o = cmd.output().map_err(|e| format!("spawning python3: {}", e))?;
        ensure!(o.status.success(), "the script failed for {:?}: {}", c, String::from_utf8_lossy(&o.stderr).lines().last().unwrap_or(""));
        p19_output(&dir.join("rand_db.json"), 1 << exp.unwrap_or(16), 1 << size_exp.unwrap_or(13), ones, &format!("with settings {:?}", c))?;
        ctx.tag_if(exp.is_none(), "default number of entries");
        ctx.tag_if(size_exp.is_none(), "default size of elements");
        ctx.tag_if(empty, "empty settings");
        ctx.nt();
        Ok(())
    })
}
fn p19_finish(st: &std::collections::BTreeMap<String, Vec<u64>>) -> Res {
    for (n, v) in st {
        for cells in v.chunks(256) {
            crate::filters::judge_cells(n, cells)?;
        }
    }
    Ok(())
}
pub fn p19_property() -> Property {
    Property {
        id: "P19",
        rule: "A case is a configuration of data/generate_db.py (number of entries 2^0..2^9, element size in bits or as an exponent of bytes, all-ones or random, an absolute, relative or left-out path, an older longer file in the way), run for real in a scratch directory, by itself, with settings left out, or by make; the output is decoded, measured, compared with a second run (no twelve bytes come twice; chi-square over bytes) and loaded as a database. Non-trivial: at least two elements.",
        subs: vec![
            Sub::new("runs", 1_500, 20_000, gen_strat, p19).finish(p19_finish).boxed(),
            Sub::new("make", 300, 6000, || (0usize..=7, sized(1, 3000), any::<bool>(), proptest::option::of(any::<u8>())).prop_map(|(exp, bits, ones, name)| MakeCase { exp, bits, ones, name }).boxed(), p19_make).boxed(),
            Sub::new("defaults", 40, 400, || prop_oneof![3 => (0usize..=6).prop_map(|e| (Some(e), None)), 1 => (0usize..=4).prop_map(|s| (None, Some(s))), 2 => (0usize..=6, 0usize..=6).prop_map(|(e, s)| (Some(e), Some(s)))].prop_flat_map(|(e, s)| (Just(e), Just(s), any::<bool>(), any::<bool>())).boxed(), p19_defaults).workers(4).boxed(),
            Sub::new("wide", 60, 1200, || (gen_strat(), 0usize..=3, sized(300, 140_000), 9usize..=17).prop_map(|(mut c, exp, bytes, e)| { c.exp = exp; c.bits = c.bits.map(|b| 8 * bytes - b % 8); c.size_exp = e; c }).boxed(), p19).finish(p19_finish).boxed(),
            Sub::new("large", 8, 60, || gen_strat().prop_map(|mut c| { c.exp = 12 + c.exp / 3; c.bits = c.bits.map(|b| b % 400 + 1); c.size_exp %= 6; c }).boxed(), p19).boxed(),
        ],
    }
}
