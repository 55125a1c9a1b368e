//! P30: the command line tool, run as a process on databases in a scratch directory.
//! Enumerated: all sequences of commands up to a depth, passwords, and the loss of each block.
use crate::engine::*;
use banyan::{query::AllQuery, store::*, *};
use banyan_utils::ipfs::IpfsStore;
use banyan_utils::sqlite::SqliteStore;
use banyan_utils::tag_index::TagSet;
use banyan_utils::tags::{Key, Sha256Digest, TT as UT};
use ipfs_sqlite_block_store::BlockStore;
use libipld::DefaultParams;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Build { count: u64, batches: u64, unbalanced: bool },
    /// forget what is before so many percent of the entries
    Forget(u64),
    Pack,
    Repair,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C30 {
    Seq { cmds: Vec<Cmd>, pass: u8 },
    /// the same with the blocks on an ipfs node
    Ipfs { cmds: Vec<Cmd>, pass: u8 },
    /// nothing outlives a process that keeps its blocks in memory
    Memory(u64),
    /// after these commands each block in turn is missing
    Lost { cmds: Vec<Cmd> },
    /// forgetting what is before each offset
    Forgets { cmds: Vec<Cmd> },
    /// built with the passwords of one kind, used with those of another
    Wrong { built: u8, used: u8 },
    Bench(u64),
    Bad(u8),
    /// a stream is published and received over ipfs pubsub
    Stream { pass: u8 },
}

struct Dir(PathBuf);
static N: AtomicU64 = AtomicU64::new(0);
impl Dir {
    fn new() -> Dir {
        let d = std::env::temp_dir().join(format!("verif-p30-{}-{}", std::process::id(), N.fetch_add(1, SeqCst)));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Dir(d)
    }
    fn db(&self, n: &str) -> String {
        self.0.join(n).to_str().unwrap().to_string()
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// passwords for index and values
fn pass(kind: u8) -> (Option<&'static str>, Option<&'static str>) {
    match kind {
        0 => (None, None),
        1 => (Some("index"), Some("values")),
        2 => (Some("index"), None),
        3 => (None, Some("values")),
        4 => (Some("a password that is much longer than thirty-two bytes"), Some("p\u{e4}ss")),
        _ => (Some(""), Some("12345678901234567890123456789012")),
    }
}
/// the key that belongs to a password: its bytes, filled up with zeros, at most 32
fn key(p: Option<&str>) -> chacha20::Key {
    let mut k = [0u8; 32];
    let b = p.unwrap_or("").as_bytes();
    let n = b.len().min(32);
    k[..n].copy_from_slice(&b[..n]);
    k.into()
}
fn secrets(kind: u8) -> Secrets {
    Secrets::new(key(pass(kind).0), key(pass(kind).1))
}

fn exe() -> PathBuf {
    std::env::var("VERIF_CLI").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())).join("mc/target/cli/debug/banyan-cli"))
}
fn command(db: &str, p: u8, args: &[String]) -> Command {
    let mut c = Command::new(exe());
    c.args(["--storage", db]);
    if let Some(x) = pass(p).0 {
        c.args(["--index-pass", x]);
    }
    if let Some(x) = pass(p).1 {
        c.args(["--value-pass", x]);
    }
    c.args(args).stdin(Stdio::null()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE");
    c
}
struct Out {
    ok: bool,
    text: String,
    err: String,
}
fn run(db: &str, p: u8, args: &[String]) -> R<Out> {
    RUNS.fetch_add(1, SeqCst);
    let o = command(db, p, args).output().map_err(|e| format!("{}: {}", exe().display(), e))?;
    ck!(o.status.code().is_some(), "{:?} was killed: {:?}", args, o.status);
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    ck!(!err.contains("panicked at"), "{:?} panicked: {}", args, err);
    Ok(Out { ok: o.status.success(), text: String::from_utf8_lossy(&o.stdout).to_string(), err })
}
fn good(db: &str, p: u8, args: &[String]) -> R<String> {
    let o = run(db, p, args)?;
    ck!(o.ok, "{:?} failed: {}", args, o.err);
    Ok(o.text)
}
static RUNS: AtomicU64 = AtomicU64::new(0);
fn a(s: &[&str]) -> Vec<String> {
    s.iter().map(|x| x.to_string()).collect()
}

#[derive(Clone, Debug, PartialEq)]
struct Ent {
    k: Key,
    v: String,
    there: bool,
}
fn tags(i: u64) -> &'static str {
    match (i % 3 == 0, i % 5 == 0) {
        (true, true) => "fizzbuzz",
        (true, false) => "fizz",
        (false, true) => "buzz",
        _ => "we.like.long.identifiers.because.they.seem.professional",
    }
}
fn ent(i: u64) -> Ent {
    Ent { k: Key::single(i, i, TagSet::single(tags(i).into())), v: i.to_string(), there: true }
}
fn line(o: usize, e: &Ent) -> String {
    format!("{:?} {:?} {:?}", o as u64, e.k, e.v)
}

/// what the dump of a tree says about its root
fn dumped_root(text: &str) -> Option<(u64, String)> {
    let l = text.lines().find(|l| l.starts_with("Branch(") || l.starts_with("Leaf("))?;
    let get = |k: &str| Some(l.split(k).nth(1)?.split(|c| c == ',' || c == ')').next()?.to_string());
    Some((get("count=")?.parse().ok()?, get("link=")?))
}
/// the tree that a command printed
fn printed_root(text: &str) -> R<(u64, Option<String>)> {
    let l = text.lines().last().unwrap_or("");
    ck!(l.starts_with("Tree {"), "no tree printed: {:?}", l);
    let get = |k: &str| l.split(k).nth(1).map(|x| x.split(|c| c == ',' || c == ' ' || c == ')').next().unwrap_or("").to_string()).unwrap_or_default();
    let count = get("count: ").parse().map_err(|_| format!("no count in {:?}", l))?;
    let link = get("link: Some(");
    Ok((count, if link.is_empty() { None } else { Some(link) }))
}

struct St {
    root: Option<String>,
    ents: Vec<Ent>,
}

fn step(db: &str, p: u8, st: &mut St, c: &Cmd) -> R<bool> {
    match c {
        Cmd::Build { count, batches, unbalanced } => {
            let mut v = a(&["build", "--count", &count.to_string(), "--batches", &batches.to_string()]);
            if *unbalanced {
                v.push("--unbalanced".into());
            }
            if let Some(r) = &st.root {
                v.extend(a(&["--base", r]));
            }
            let t = good(db, p, &v)?;
            st.ents.extend((0..count * batches).map(ent));
            match dumped_root(&t) {
                Some((n, l)) => {
                    ck!(n == st.ents.len() as u64, "build printed a tree of {} entries, want {}", n, st.ents.len());
                    st.root = Some(l);
                }
                None => ck!(st.ents.is_empty(), "build printed no tree"),
            }
        }
        _ => {
            let Some(r) = st.root.clone() else { return Ok(false) };
            let t = match c {
                Cmd::Forget(pc) => {
                    let n = st.ents.len() as u64 * pc / 100;
                    // what is before may go, in whole chunks
                    let t = good(db, p, &a(&["forget", "--root", &r, "--before", &n.to_string()]))?;
                    let (_, l) = printed_root(&t)?;
                    let Some(l) = l else {
                        ck!(n == st.ents.len() as u64, "everything was forgotten");
                        return Ok(false);
                    };
                    let there = values(db, p, &l, &st.ents)?;
                    for (i, e) in st.ents.iter_mut().enumerate() {
                        ck!(!e.there || (i as u64) < n || there[i], "forgetting what is before {} lost entry {}", n, i);
                        e.there = there[i];
                    }
                    t
                }
                Cmd::Pack => good(db, p, &a(&["pack", "--root", &r]))?,
                _ => good(db, p, &a(&["repair", "--root", &r]))?,
            };
            let (n, l) = printed_root(&t)?;
            ck!(n == st.ents.len() as u64, "{:?} printed a tree of {} entries, want {}", c, n, st.ents.len());
            ck!(l.is_some(), "{:?} printed no link", c);
            st.root = l;
        }
    }
    Ok(true)
}

/// which entries the tool prints; whatever it prints must be right
fn values(db: &str, p: u8, root: &str, ents: &[Ent]) -> R<Vec<bool>> {
    let t = good(db, p, &a(&["dump-values", "--root", root]))?;
    let mut there = vec![false; ents.len()];
    let mut last = None;
    for l in t.lines() {
        let i: usize = l.split(' ').next().unwrap_or("").parse().map_err(|_| format!("strange line {:?}", l))?;
        ck!(i < ents.len() && Some(i) > last && l == line(i, &ents[i]), "printed {:?}, want {:?}", l, ents.get(i).map(|e| line(i, e)));
        last = Some(i);
        there[i] = true;
    }
    Ok(there)
}

/// the store behind a --storage argument
#[derive(Clone)]
enum Sto {
    Sqlite(SqliteStore<DefaultParams>),
    Ipfs(IpfsStore),
}
impl ReadOnlyStore<Sha256Digest> for Sto {
    fn get(&self, link: &Sha256Digest) -> anyhow::Result<Box<[u8]>> {
        match self {
            Sto::Sqlite(s) => s.get(link),
            Sto::Ipfs(s) => s.get(link),
        }
    }
}
impl BlockWriter<Sha256Digest> for Sto {
    fn put(&mut self, data: Vec<u8>) -> anyhow::Result<Sha256Digest> {
        match self {
            Sto::Sqlite(s) => s.put(data),
            Sto::Ipfs(s) => s.put(data),
        }
    }
}
fn open(db: &str) -> R<Sto> {
    if db == "ipfs" {
        return Ok(Sto::Ipfs(IpfsStore::default()));
    }
    Ok(Sto::Sqlite(SqliteStore::new(BlockStore::open(db, Default::default()).map_err(|e| e.to_string())?)))
}
type Fo = Forest<UT, Sto>;

/// all that the tool says about a tree
fn observe(db: &str, p: u8, st: &St) -> R<()> {
    let Some(r) = &st.root else { return Ok(()) };
    let es = |e: anyhow::Error| format!("{:#}", e);
    let there = values(db, p, r, &st.ents)?;
    for (i, e) in st.ents.iter().enumerate() {
        ck!(e.there == there[i], "entry {} printed: {}, want {}", i, there[i], e.there);
    }
    // the same by the library, with keys derived here
    let f: Fo = Forest::new(open(db)?, BranchCache::new(0));
    let root: Sha256Digest = r.parse().map_err(es)?;
    let tree = f.load_tree::<String>(secrets(p), root).map_err(es)?;
    let got: Vec<Option<(Key, String)>> = f.collect(&tree).map_err(es)?;
    let want: Vec<Option<(Key, String)>> = st.ents.iter().map(|e| e.there.then(|| (e.k.clone(), e.v.clone()))).collect();
    ck!(got == want, "the stored tree has other content");
    // every thousandth element of what is asked for
    let sparse = |v: Vec<(usize, &Ent)>| -> Vec<String> { v.into_iter().enumerate().filter(|(n, _)| n % 1000 == 0).map(|(_, (i, e))| format!("{:?}", (i as u64, &e.k, &e.v))).collect() };
    let present: Vec<(usize, &Ent)> = st.ents.iter().enumerate().filter(|x| x.1.there).collect();
    let t = good(db, p, &a(&["stream", "--root", r]))?;
    ck!(t.lines().map(|x| x.to_string()).collect::<Vec<_>>() == sparse(present.clone()), "stream printed {:?}, want {:?}", t, sparse(present));
    let dump = good(db, p, &a(&["dump", "--root", r]))?;
    for names in [&["fizz"][..], &["buzz", "fizzbuzz"], &["unknown"], &[]] {
        let mut v = a(&["filter", "--root", r]);
        for n in names {
            v.extend(a(&["--tag", n]));
        }
        let t = good(db, p, &v)?;
        let hit: Vec<(usize, &Ent)> = present.iter().filter(|(i, e)| names.contains(&tags(e.v.parse().unwrap_or(*i as u64)))).cloned().collect();
        let got: Vec<String> = t.lines().filter(|l| l.starts_with('(')).map(|x| x.to_string()).collect();
        ck!(got == sparse(hit.clone()), "filter {:?} printed {:?}, want {:?}", names, got, sparse(hit));
    }
    // dump: one line per node, indented by its depth
    let mut nodes = vec![];
    let mut leaves = vec![];
    let mut count = 0;
    for i in f.iter_index(&tree, AllQuery) {
        let i = i.map_err(es)?;
        nodes.push((i.count(), i.link().map(|l| l.to_string())));
        if i.level() == 0 {
            if let Some(l) = i.link() {
                leaves.push((count, i.count(), l.to_string()));
            }
        }
        if i.level() == 0 || i.link().is_none() {
            count += i.count();
        }
    }
    let got: Vec<(u64, Option<String>)> = dump
        .lines()
        .map(|l| {
            let get = |k: &str| l.split(k).nth(1).and_then(|x| x.split(|c| c == ',' || c == ')').next()).unwrap_or("").to_string();
            let link = get("link=");
            (get("count=").parse().unwrap_or(u64::MAX), if link.is_empty() { None } else { Some(link) })
        })
        .collect();
    ck!(got == nodes, "dump printed {:?}, want {:?}", got, nodes);
    let g = good(db, p, &a(&["graph", "--root", r]))?;
    let n = g.lines().filter(|l| l.trim_start().starts_with('N') && !l.contains("->")).count();
    let e = g.lines().filter(|l| l.contains("->")).count();
    ck!(n == nodes.len() && e + 1 == n, "graph has {} nodes and {} edges, want {} nodes", n, e, nodes.len());
    // some blocks
    for (off, n, l) in leaves.iter().take(2) {
        for cbor in [false, true] {
            let mut v = a(&["dump-block", "--hash", l]);
            if cbor {
                v.push("--cbor".into());
            }
            let t = good(db, p, &v)?;
            let want: Vec<String> = std::iter::once("ZstdDagCborSeq".to_string()).chain((*off..off + n).map(|i| format!("{:?}", st.ents[i as usize].v))).collect();
            ck!(t.lines().map(|x| x.to_string()).collect::<Vec<_>>() == want, "dump-block printed {:?}, want {:?}", t, want);
        }
    }
    Ok(())
}

/// all links of a tree with the range of entries below each
fn links(f: &Fo, t: &Tree<UT, String>) -> R<Vec<(String, i64, std::ops::Range<u64>)>> {
    let mut v = vec![];
    let mut off = 0;
    for i in f.iter_index(t, AllQuery) {
        let i = i.map_err(|e| e.to_string())?;
        if let Some(l) = i.link() {
            v.push((l.to_string(), i.level() as i64, off..off + i.count()));
        }
        if i.level() == 0 || i.link().is_none() {
            off += i.count();
        }
    }
    Ok(v)
}

fn check30(c: &C30) -> R<u64> {
    let d = Dir::new();
    let es = |e: anyhow::Error| format!("{:#}", e);
    let n0 = 1;
    match c {
        C30::Memory(n) => {
            let t = good("memory", 1, &a(&["build", "--count", &n.to_string(), "--batches", "2"]))?;
            let (k, l) = dumped_root(&t).ok_or("no tree printed")?;
            ck!(k == 2 * n, "build printed a tree of {} entries", k);
            ck!(!run("memory", 1, &a(&["dump-values", "--root", &l]))?.ok, "a tree in the memory of another process was read");
        }
        C30::Seq { cmds, pass } | C30::Ipfs { cmds, pass } => {
            let db = if matches!(c, C30::Seq { .. }) { d.db("db") } else { "ipfs".to_string() };
            crate::p29::record("");
            let mut st = St { root: None, ents: vec![] };
            for (i, c) in cmds.iter().enumerate() {
                if !step(&db, *pass, &mut st, c).map_err(|e| format!("command {}: {}", i, e))? {
                    return Ok(n0);
                }
            }
            observe(&db, *pass, &st)?;
        }
        C30::Lost { cmds } => {
            let db = d.db("db");
            let mut st = St { root: None, ents: vec![] };
            for c in cmds {
                if !step(&db, 1, &mut st, c)? {
                    return Ok(n0);
                }
            }
            let Some(r) = st.root.clone() else { return Ok(n0) };
            let s = open(&db)?;
            let f: Fo = Forest::new(s.clone(), BranchCache::new(0));
            let tree = f.load_tree::<String>(secrets(1), r.parse().map_err(es)?).map_err(es)?;
            let all = links(&f, &tree)?;
            let mut n = 0;
            for (x, (lost, level, range)) in all.iter().enumerate() {
                let db2 = d.db(&format!("db{}", x));
                {
                    let mut s2 = open(&db2)?;
                    for (l, ..) in all.iter().filter(|y| y.0 != *lost) {
                        s2.put(s.get(&l.parse().map_err(es)?).map_err(es)?.into()).map_err(es)?;
                    }
                }
                // whatever reads the lost block says so
                let o = run(&db2, 1, &a(&["dump-values", "--root", &r]))?;
                ck!(!o.ok, "dump-values hides that block {} (level {}) is lost", lost, level);
                let before: Vec<String> = st.ents.iter().enumerate().filter(|(i, e)| e.there && (*i as u64) < range.start).map(|(i, e)| line(i, e)).collect();
                let got: Vec<&str> = o.text.lines().collect();
                ck!(got == before || *lost == r && got.is_empty(), "dump-values printed {} entries before the lost block, want {}", got.len(), before.len());
                ck!(!run(&db2, 1, &a(&["stream", "--root", &r]))?.ok, "stream hides that block {} is lost", lost);
                let o = run(&db2, 1, &a(&["filter", "--root", &r, "--tag", "fizz", "--tag", "buzz", "--tag", "fizzbuzz", "--tag", tags(1)]))?;
                ck!(!o.ok, "filter hides that block {} is lost", lost);
                if *level > 0 {
                    for c in ["dump", "graph"] {
                        ck!(!run(&db2, 1, &a(&[c, "--root", &r]))?.ok, "{} hides that branch {} is lost", c, lost);
                    }
                } else {
                    ck!(!run(&db2, 1, &a(&["dump-block", "--hash", lost]))?.ok, "dump-block of a lost block");
                }
                n += 5;
                // repair
                let o = run(&db2, 1, &a(&["repair", "--root", &r]))?;
                if *lost == r {
                    ck!(!o.ok, "a tree without root was repaired");
                    continue;
                }
                ck!(o.ok, "repair failed: {}", o.err);
                let (k, l) = printed_root(&o.text)?;
                ck!(k == st.ents.len() as u64, "repair printed a tree of {} entries", k);
                let Some(l) = l else { return Err("repair printed no link".into()) };
                let there = values(&db2, 1, &l, &st.ents)?;
                for (i, e) in st.ents.iter().enumerate() {
                    let want = e.there && !range.contains(&(i as u64));
                    ck!(there[i] == want, "after the repair entry {} is there: {}, want {}", i, there[i], want);
                }
                n += 2;
            }
            return Ok(n);
        }
        C30::Forgets { cmds } => {
            let db = d.db("db");
            let mut st = St { root: None, ents: vec![] };
            for c in cmds {
                if !step(&db, 1, &mut st, c)? {
                    return Ok(n0);
                }
            }
            let Some(r) = st.root.clone() else { return Ok(n0) };
            let s = open(&db)?;
            let mut n = 0;
            for before in (0..st.ents.len() as u64 + 2).chain([u64::MAX]) {
                let t = good(&db, 1, &a(&["forget", "--root", &r, "--before", &before.to_string()]))?;
                let (k, l) = printed_root(&t)?;
                ck!(k == st.ents.len() as u64, "forget printed a tree of {} entries", k);
                let Some(l) = l else { return Err("forget printed no link".into()) };
                let there = values(&db, 1, &l, &st.ents)?;
                // the same by the library
                let mut txn = Transaction::new(Forest::<UT, Sto>::new(s.clone(), BranchCache::new(1 << 20)), s.clone());
                let mut b = txn.load_stream_builder::<String>(secrets(1), Config::debug(), r.parse().map_err(es)?).map_err(es)?;
                txn.retain(&mut b, &banyan::query::OffsetRangeQuery::from(before..)).map_err(es)?;
                let want: Vec<bool> = txn.collect(&b.snapshot()).map_err(es)?.iter().map(|x| x.is_some()).collect();
                for i in 0..there.len() {
                    ck!(!st.ents[i].there || there[i] || (i as u64) < before, "forgetting what is before {} lost entry {}", before, i);
                    ck!(there[i] == want[i], "forgetting what is before {}: entry {} is there: {}, want {}", before, i, there[i], want[i]);
                }
                n += 1;
            }
            return Ok(n);
        }
        C30::Wrong { built, used } => {
            let db = d.db("db");
            let mut st = St { root: None, ents: vec![] };
            step(&db, *built, &mut st, &Cmd::Build { count: 25, batches: 1, unbalanced: false })?;
            let r = st.root.clone().unwrap();
            let index = key(pass(*built).0) == key(pass(*used).0);
            let value = key(pass(*built).1) == key(pass(*used).1);
            for (args, needs_value) in [
                (a(&["dump-values", "--root", &r]), true),
                (a(&["stream", "--root", &r]), true),
                (a(&["filter", "--root", &r, "--tag", "fizz"]), true),
                (a(&["dump", "--root", &r]), false),
                (a(&["graph", "--root", &r]), false),
                (a(&["pack", "--root", &r]), false),
                (a(&["forget", "--root", &r, "--before", "10"]), false),
                (a(&["build", "--base", &r, "--count", "3"]), false),
            ] {
                let o = run(&db, *used, &args)?;
                let ok = index && (value || !needs_value);
                // appending and packing may read leaves
                let free = (args[0] == "build" || args[0] == "pack") && index && !value;
                ck!(o.ok == ok || free, "{} with {} index and {} value password: succeeded {}", args[0], if index { "the right" } else { "a wrong" }, if value { "the right" } else { "a wrong" }, o.ok);
                if needs_value && !ok {
                    ck!(!o.text.contains("professional\"") && !o.text.lines().any(|l| l.starts_with('(')), "{} printed entries: {}", args[0], o.text);
                }
            }
        }
        C30::Bench(n) => {
            let t = good(&d.db("db"), 1, &a(&["bench", "--count", &n.to_string()]))?;
            let l: Vec<&str> = t.lines().collect();
            let fizz = (0..*n).filter(|i| tags(*i) == "fizz").count();
            let both = (0..*n).filter(|i| tags(*i) == "fizzbuzz" && *i <= n / 10).count();
            ck!(l.len() == 6 && l[0] == fizz.to_string() && l[1] == both.to_string(), "bench printed {:?}, want {} and {}", l, fizz, both);
        }
        C30::Bad(k) => {
            let db = d.db("db");
            let h = Sha256Digest::digest(b"x").to_string();
            let args = match k {
                0 => a(&["dump-values", "--root", "garbage"]),
                1 => a(&["dump-values", "--root", &h]),
                2 => a(&["build", "--count", "x"]),
                3 => a(&["pack", "--root", &h]),
                4 => a(&["repair", "--root", &h]),
                5 => a(&["forget", "--root", &h, "--before", "1"]),
                6 => a(&["filter", "--root", &h]),
                7 => a(&["dump-block", "--hash", &h]),
                8 => a(&["build", "--count", "2", "--base", &h]),
                _ => a(&["graph", "--root", &h]),
            };
            ck!(!run(&db, 0, &args)?.ok, "{:?} succeeded", args);
        }
        C30::Stream { pass } => {
            let topic = format!("topic{}", crate::p29::unique());
            let db = d.db("db");
            crate::p29::record(&topic);
            let mut ch = command(&db, *pass, &a(&["send-stream", "--topic", &topic])).stdout(Stdio::null()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
            let t0 = Instant::now();
            while crate::p29::published(&topic).len() < 3 && t0.elapsed() < Duration::from_secs(30) && ch.try_wait().ok().flatten().is_none() {
                std::thread::sleep(Duration::from_millis(20));
            }
            let _ = ch.kill();
            let _ = ch.wait();
            let msgs = crate::p29::published(&topic);
            ck!(msgs.len() >= 3, "{} trees were published", msgs.len());
            for (i, m) in msgs.iter().enumerate() {
                let f: Fo = Forest::new(open(&db)?, BranchCache::new(0));
                let root: Sha256Digest = String::from_utf8_lossy(m).parse().map_err(es)?;
                let t = f.load_tree::<String>(secrets(*pass), root).map_err(es)?;
                let got: Vec<(u64, Key, String)> = f.iter_from(&t).collect::<anyhow::Result<_>>().map_err(es)?;
                let want: Vec<(u64, Key, String)> = (0..=i as u64).map(|o| (o, ent(o).k, "xxx".to_string())).collect();
                ck!(got == want, "tree {} has {} entries", i, got.len());
            }
            // a receiver gets every entry once, whatever arrives together
            for cut in [0usize, 1, 2] {
                let topic = format!("topic{}", crate::p29::unique());
                crate::p29::offer(&topic, &msgs, cut);
                let o = run(&db, *pass, &a(&["recv-stream", "--topic", &topic]))?;
                ck!(o.ok, "receiving failed: {}", o.err);
                let want: Vec<String> = (0..msgs.len() as u64).map(|o| format!("Ok({:?})", (o, ent(o).k, "xxx"))).collect();
                ck!(o.text.lines().collect::<Vec<_>>() == want, "received {:?}, want {:?}", o.text, want);
            }
        }
    }
    Ok(n0)
}
pub fn replay30(v: &Value) -> R<()> {
    let c: C30 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check30(&c).map(|_| ())
}
pub fn explore30(ctx: &Ctx) -> (&'static str, Value) {
    if !exe().exists() {
        eprintln!("{} is not there: run check.sh", exe().display());
        std::process::exit(4);
    }
    let b = |count, batches, unbalanced| Cmd::Build { count, batches, unbalanced };
    let alpha = vec![b(1, 1, false), b(13, 2, false), b(3, 3, true), b(45, 1, false), Cmd::Forget(50), Cmd::Pack, Cmd::Repair];
    let mut v = vec![C30::Stream { pass: 0 }, C30::Stream { pass: 1 }];
    for p in 0..6 {
        v.push(C30::Seq { cmds: vec![b(13, 2, true), Cmd::Pack, Cmd::Forget(50), b(9, 1, false), Cmd::Repair], pass: p });
        for q in 0..6 {
            v.push(C30::Wrong { built: p, used: q });
        }
    }
    let mut lost = vec![vec![b(30, 1, false)], vec![b(3, 4, true)], vec![b(50, 1, false), b(7, 1, true)]];
    if !ctx.quick() {
        lost.extend([vec![b(170, 1, false)], vec![b(170, 1, false), Cmd::Forget(50), b(20, 2, true)], vec![b(1, 1, false)]]);
    }
    v.extend(lost.into_iter().map(|cmds| C30::Lost { cmds }));
    v.push(C30::Seq { cmds: vec![b(2100, 1, false), Cmd::Forget(30), b(1, 2, true)], pass: 1 });
    v.push(C30::Seq { cmds: vec![b(1001, 2, true)], pass: 0 });
    let mut seqs: Vec<Vec<Cmd>> = vec![vec![]];
    for d in 0..ctx.pick(3, 4) {
        seqs = seqs
            .into_iter()
            .flat_map(|s| {
                alpha.iter().filter(move |c| d > 0 || matches!(c, Cmd::Build { .. })).map(move |c| {
                    let mut s = s.clone();
                    s.push(c.clone());
                    s
                })
            })
            .collect();
        v.extend(seqs.iter().map(|s| C30::Seq { cmds: s.clone(), pass: (s.len() % 2) as u8 }));
    }
    for pc in [0, 1, 10, 90, 99, 100] {
        v.push(C30::Seq { cmds: vec![b(45, 1, false), Cmd::Forget(pc), b(13, 2, false), Cmd::Forget(pc)], pass: 1 });
    }
    for n in [0, 1, 2, 31, 300, 1001] {
        if n > 0 {
            v.push(C30::Bench(n));
        }
        v.push(C30::Seq { cmds: vec![b(n, 1, false)], pass: 0 });
        v.push(C30::Seq { cmds: vec![b(0, 2, true), b(n, 1, false), b(0, 2, true)], pass: 1 });
    }
    v.extend((0..10).map(C30::Bad));
    for cmds in [vec![b(13, 2, true), Cmd::Pack, b(9, 1, false), Cmd::Forget(50), Cmd::Repair], vec![b(45, 1, false)], vec![b(300, 1, false), b(2, 3, true)]] {
        v.extend((0..ctx.pick(2, 6)).map(|pass| C30::Ipfs { cmds: cmds.clone(), pass }));
    }
    v.extend([1, 20, 100].map(C30::Memory));
    for n in ctx.pick(vec![9, 45], vec![1, 9, 45, 90, 200]) {
        v.push(C30::Forgets { cmds: vec![b(n, 1, false)] });
        v.push(C30::Forgets { cmds: vec![b(n, 1, false), b(2, 3, true), Cmd::Forget(20)] });
    }
    let r = ctx.par(&v, check30);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("runs of the tool", RUNS.load(SeqCst));
    ctx.transitions.fetch_add(RUNS.load(SeqCst), SeqCst);
    ctx.states.store(v.len() as u64, SeqCst);
    ctx.validated.store(n, SeqCst);
    ctx.note("all sequences of up to 3 (4) of 7 commands on a database, after each sequence the output of every inspecting command against a list of entries and against the library with independently derived keys; all pairs of 6 kinds of passwords; each block of some trees lost; send and receive over a scripted ipfs node".to_string());
    ("model_checking", Value::Null)
}
