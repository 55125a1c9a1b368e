//! P20: concurrent use of a shared store, cache or forest.
use crate::engine::*;
use crate::q::Q;
use crate::types::*;
use banyan::index::{Branch, BranchLoader};
use banyan::query::AllQuery;
use banyan::store::{BlockWriter, BranchCache, MemCache, MemStore, MemWriter, ReadOnlyStore};
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree};
use parking_lot::sched;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::num::NonZeroUsize;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub enum O {
    /// write block i
    P(u8),
    /// read block i
    G(u8),
    /// offer block i to the cache
    F(u8),
    /// change the capacity of the branch cache
    R(u8),
    /// forest: read operation i
    D(u8),
    /// forest: work on an own stream, variant i
    W(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Store { max: usize },
    /// block cache over a memory store; `tight`: results are compared only as far as evictions allow
    Cache { max_size: usize, cap: usize },
    Branch { cap: usize },
    Forest { branch_cap: usize, max_size: usize, cap: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    kind: Kind,
    threads: Vec<Vec<O>>,
    bound: usize,
}

/// ids of the blocks are their index; sizes make every limit reachable
fn block(i: u8) -> Vec<u8> {
    let n = [3, 3, 4, 1, 0][i as usize];
    (0..n).map(|k| i * 16 + k as u8).collect()
}
const NB: u8 = 5;
fn blink(i: u8) -> Sha {
    Sha::of(&block(i))
}

fn mem(max: usize) -> MemStore<Sha> {
    MemStore::new(max, |d: &[u8]| {
        sched::point();
        let r = Sha::of(d);
        sched::point();
        r
    })
}

/// the inner store of the cache: can be switched off to see what the cache serves by itself
#[derive(Clone)]
struct Inner {
    s: MemStore<Sha>,
    down: Arc<AtomicBool>,
}
impl ReadOnlyStore<Sha> for Inner {
    fn get(&self, l: &Sha) -> anyhow::Result<Box<[u8]>> {
        anyhow::ensure!(!self.down.load(SeqCst), "down");
        self.s.get(l)
    }
}
impl BlockWriter<Sha> for Inner {
    fn put(&mut self, d: Vec<u8>) -> anyhow::Result<Sha> {
        self.s.put(d)
    }
}

type St = MemCache<Sha, MemStore<Sha>>;
type F = Forest<TT, St>;
type Txn = Transaction<TT, St, MemWriter<Sha, MemStore<Sha>>>;

struct Setup {
    blocks: Vec<Vec<u8>>,
    trees: Vec<Tree<TT, Val>>,
    branches: Vec<(Sha, Branch<TT>)>,
}

fn secrets(n: u8) -> Secrets {
    Secrets::new([7 + n; 32].into(), [9 + n; 32].into())
}
fn cfg(leaf: usize, key: usize, sum: usize) -> Config {
    Config {
        max_summary_branches: sum,
        max_key_branches: key,
        max_leaf_count: leaf,
        target_leaf_size: 1 << 20,
        max_uncompressed_leaf_size: 1 << 22,
        zstd_level: 1,
    }
}
fn item(n: u64) -> (K, Val) {
    (K(n % 5), Val(c_uint(n)))
}
fn es(e: anyhow::Error) -> String {
    format!("{:#}", e)
}

fn mk(store: St, branch_cap: usize) -> F {
    Forest::new(store, BranchCache::new(branch_cap))
}
fn txn(f: &F) -> R<Txn> {
    let w = f.store().write(|s| Ok(s.clone())).map_err(es)?;
    Ok(Transaction::new(f.clone(), w))
}

fn setup() -> R<Setup> {
    let ms = mem(usize::MAX);
    let f = mk(MemCache::new(ms.clone(), 0, 0), 1 << 20);
    let mut t = txn(&f)?;
    let mut trees = vec![];
    let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg(2, 2, 2), secrets(0));
    t.extend(&mut b, (0..7).map(item)).map_err(es)?;
    trees.push(b.snapshot());
    let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg(1, 3, 2), secrets(1));
    t.extend(&mut b, (10..15).map(item)).map_err(es)?;
    t.extend_unpacked(&mut b, (15..17).map(item)).map_err(es)?;
    trees.push(b.snapshot());
    let mut branches = vec![];
    for (k, n) in [(2usize, 2u64), (3, 3), (5, 5)] {
        let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg(1, k, k), secrets(2));
        t.extend(&mut b, (0..n).map(item)).map_err(es)?;
        let l = b.link().ok_or("no root")?;
        branches.push((l, BranchLoader::new(&f, &secrets(2), l).load().map_err(es)?));
    }
    drop(t);
    drop(f);
    let mut blocks: Vec<Vec<u8>> = ms
        .into_inner()
        .map_err(es)?
        .into_values()
        .map(|x| x.into_vec())
        .collect();
    blocks.sort();
    Ok(Setup {
        blocks,
        trees,
        branches,
    })
}

thread_local!(static SETUP: Arc<Setup> = Arc::new(setup().expect("setup")));

/// what a program runs on
enum Obj {
    Store(MemStore<Sha>),
    Cache(MemCache<Sha, Inner>, Inner),
    Branch(BranchCache<TT>),
    Forest(F),
}

fn obj(k: &Kind, s: &Setup) -> R<Obj> {
    Ok(match k {
        Kind::Store { max } => Obj::Store(mem(*max)),
        Kind::Cache { max_size, cap } => {
            let i = Inner {
                s: mem(1 << 20),
                down: Default::default(),
            };
            Obj::Cache(MemCache::new(i.clone(), *max_size, *cap), i)
        }
        Kind::Branch { cap } => Obj::Branch(BranchCache::new(*cap)),
        Kind::Forest {
            branch_cap,
            max_size,
            cap,
        } => {
            let mut m = mem(usize::MAX);
            for b in &s.blocks {
                m.put(b.clone()).map_err(es)?;
            }
            Obj::Forest(mk(MemCache::new(m, *max_size, *cap), *branch_cap))
        }
    })
}

fn chunks<E>(it: impl Iterator<Item = anyhow::Result<banyan::FilteredChunk<(u64, K, Val), E>>>) -> String {
    let mut out = String::new();
    for x in it.take(200) {
        match x {
            Ok(c) => out.push_str(&format!("{:?}{:?};", c.range, c.data)),
            Err(e) => out.push_str(&format!("err {:#};", e)),
        }
    }
    out
}
fn all<T: std::fmt::Debug>(it: impl Iterator<Item = anyhow::Result<T>>) -> String {
    let mut out = String::new();
    for x in it.take(200) {
        out.push_str(&format!("{:?};", x.map_err(|e| e.to_string())));
    }
    out
}

pub const NREAD: u8 = 9;
pub const NWRITE: u8 = 4;

fn point_query() -> Arc<dyn banyan::query::Query<TT>> {
    Q::Key(1, 3).compile()
}

fn read(f: &F, s: &Setup, i: u8) -> String {
    let a = &s.trees[0];
    let b = &s.trees[1];
    match i {
        0 => format!("{:?}", f.collect(a).map_err(es)),
        1 => format!("{:?}", f.collect_from(b, 3).map_err(es)),
        2 => format!("{:?} {:?}", f.get(a, 1).map_err(es), f.get(a, 6).map_err(es)),
        3 => chunks(f.iter_filtered_chunked(a, point_query(), &|_| {
            sched::point();
        })),
        4 => chunks(f.iter_filtered_chunked_reverse(a, AllQuery, &|_| ())),
        5 => all(f.iter_filtered(b, point_query())),
        6 => all(f.iter_index(a, AllQuery)),
        7 => format!("{:?}", f.left_roots(a).map(|x| x.len()).map_err(es)),
        8 => {
            let sec = a.secrets().cloned();
            let l = a.link();
            match (sec, l) {
                (Some(sec), Some(l)) => format!(
                    "{:?}",
                    f.load_tree::<Val>(sec, l)
                        .and_then(|t| f.collect(&t))
                        .map_err(es)
                ),
                _ => "none".into(),
            }
        }
        _ => unreachable!(),
    }
}

fn work(f: &F, thread: usize, i: u8) -> String {
    let go = || -> R<String> {
        let mut t = txn(f)?;
        let mut b: StreamBuilder<TT, Val> = StreamBuilder::new(cfg(2, 2, 2), secrets(20 + thread as u8));
        let o = 100 * (thread as u64 + 1);
        match i {
            0 => t.extend(&mut b, (o..o + 5).map(item)).map_err(es)?,
            1 => {
                t.extend_unpacked(&mut b, (o..o + 2).map(item)).map_err(es)?;
                t.extend_unpacked(&mut b, (o + 2..o + 3).map(item)).map_err(es)?;
                t.pack(&mut b).map_err(es)?;
            }
            2 => {
                t.extend(&mut b, (o..o + 4).map(item)).map_err(es)?;
                t.retain(&mut b, &banyan::query::OffsetRangeQuery::from(2u64..)).map_err(es)?;
            }
            3 => {
                for n in 0..3 {
                    t.push(&mut b, item(o + n).0, item(o + n).1).map_err(es)?;
                }
            }
            _ => unreachable!(),
        }
        Ok(format!(
            "{:?} {:?} {:?}",
            b.link(),
            t.collect(&b.snapshot()).map_err(es)?,
            f.collect(&b.snapshot()).map_err(es)?
        ))
    };
    format!("{:?}", go())
}

fn exec(o: &Obj, s: &Setup, thread: usize, op: &O) -> String {
    match (o, op) {
        (Obj::Store(m), O::P(i)) => {
            let mut m = m.clone();
            format!("{:?}", m.put(block(*i)).map(|l| l == blink(*i)).map_err(|_| ()))
        }
        (Obj::Store(m), O::G(i)) => format!("{:?}", m.get(&blink(*i)).map(|d| *d == block(*i)).map_err(|_| ())),
        (Obj::Cache(c, _), O::P(i)) => {
            let r = c
                .write(|s| Ok(s.clone()))
                .and_then(|mut w| w.put(block(*i)))
                .map(|l| l == blink(*i));
            format!("{:?}", r.map_err(|_| ()))
        }
        (Obj::Cache(c, _), O::G(i)) => format!("{:?}", c.get(&blink(*i)).map(|d| *d == block(*i)).map_err(|_| ())),
        (Obj::Cache(c, _), O::F(i)) => {
            c.offer(&blink(*i), &block(*i));
            String::new()
        }
        (Obj::Branch(c), O::P(i)) => {
            let (l, b) = &s.branches[*i as usize];
            c.put(*l, b.clone());
            String::new()
        }
        (Obj::Branch(c), O::G(i)) => {
            let (l, b) = &s.branches[*i as usize];
            match c.get(l) {
                Some(x) => format!("{}", format!("{:?}", x) == format!("{:?}", b)),
                None => "none".into(),
            }
        }
        (Obj::Branch(c), O::R(i)) => {
            c.reset(NonZeroUsize::new(bcap(s, *i as usize)).unwrap());
            String::new()
        }
        (Obj::Forest(f), O::D(i)) => read(f, s, *i),
        (Obj::Forest(f), O::W(i)) => work(f, thread, *i),
        _ => unreachable!(),
    }
}

/// branch cache capacities: fits none, the first, the first two, all
fn bcap(s: &Setup, k: usize) -> usize {
    use weight_of as w;
    let b = &s.branches;
    match k {
        0 => 1,
        1 => w(&b[0].1) + 1,
        2 => w(&b[0].1) + w(&b[1].1),
        _ => 1 << 20,
    }
}
/// some capacity scale; exactness does not matter, sequential runs use the same
fn weight_of(b: &Branch<TT>) -> usize {
    b.children.len() * 400
}

/// observations after all threads are done
fn probe(o: &Obj, s: &Setup, k: &Kind) -> R<String> {
    Ok(match o {
        Obj::Store(m) => {
            let Kind::Store { max } = k else { unreachable!() };
            let mut sum = 0;
            let mut out = String::new();
            for i in 0..NB {
                if let Ok(d) = m.get(&blink(i)) {
                    ck!(*d == block(i), "wrong bytes for block {}", i);
                    sum += d.len();
                    out.push_str(&format!("{} ", i));
                }
            }
            ck!(sum <= *max, "{} bytes in a store of {}", sum, max);
            // the accounting is exact: one byte more does not fit, the rest does
            let room = max - sum;
            let mut m = m.clone();
            let filler = |n: usize| vec![0xee; n];
            ck!(m.put(filler(room + 1)).is_err(), "room for {} bytes with {} of {} used", room + 1, sum, max);
            if room > 0 {
                ck!(m.put(filler(room)).is_ok(), "no room for {} bytes with {} of {} used", room, sum, max);
            }
            out
        }
        Obj::Cache(c, i) => {
            let Kind::Cache { cap, .. } = k else { unreachable!() };
            i.down.store(true, SeqCst);
            let mut sum = 0;
            let mut out = String::new();
            for n in 0..NB {
                if let Ok(d) = c.get(&blink(n)) {
                    ck!(*d == block(n), "wrong bytes for block {}", n);
                    sum += d.len();
                    out.push_str(&format!("{} ", n));
                }
            }
            ck!(sum <= *cap, "{} bytes in a cache of {}", sum, cap);
            i.down.store(false, SeqCst);
            out.push('|');
            for n in 0..NB {
                if i.get(&blink(n)).is_ok() {
                    out.push_str(&format!("{} ", n));
                }
            }
            out
        }
        Obj::Branch(_) => {
            let mut out = String::new();
            for i in 0..s.branches.len() {
                out.push_str(&exec(o, s, 0, &O::G(i as u8)));
                out.push(' ');
            }
            out
        }
        Obj::Forest(f) => {
            let mut out = String::new();
            for i in [0u8, 1] {
                out.push_str(&read(f, s, i));
            }
            out
        }
    })
}

/// one finished operation
#[derive(Clone, Debug)]
struct Done {
    start: u64,
    end: u64,
    res: String,
}

type Seq = (Vec<(usize, usize)>, Vec<Vec<String>>, String);

/// all sequential runs of the program on the real code
fn sequential(p: &Prog, s: &Setup) -> R<Vec<Seq>> {
    fn orders(len: &[usize], pos: &mut Vec<usize>, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        let mut any = false;
        for t in 0..len.len() {
            if pos[t] < len[t] {
                any = true;
                cur.push((t, pos[t]));
                pos[t] += 1;
                orders(len, pos, cur, out);
                pos[t] -= 1;
                cur.pop();
            }
        }
        if !any {
            out.push(cur.clone());
        }
    }
    let len: Vec<usize> = p.threads.iter().map(|t| t.len()).collect();
    let mut os = vec![];
    if matches!(p.kind, Kind::Forest { .. }) {
        // one order; the judge wants the results of running alone
        let mut o = vec![];
        for (t, l) in len.iter().enumerate() {
            o.extend((0..*l).map(|i| (t, i)));
        }
        os.push(o);
    } else {
        orders(&len, &mut vec![0; len.len()], &mut vec![], &mut os);
    }
    os.into_iter()
        .map(|ord| {
            let o = obj(&p.kind, s)?;
            let mut res: Vec<Vec<String>> = len.iter().map(|l| vec![String::new(); *l]).collect();
            for (t, i) in &ord {
                // a forest operation is compared with running it alone
                if matches!(p.kind, Kind::Forest { .. }) {
                    let o = obj(&p.kind, s)?;
                    res[*t][*i] = exec(&o, s, *t, &p.threads[*t][*i]);
                } else {
                    res[*t][*i] = exec(&o, s, *t, &p.threads[*t][*i]);
                }
            }
            let pr = probe(&o, s, &p.kind)?;
            Ok((ord, res, pr))
        })
        .collect()
}

fn judge(p: &Prog, seq: &[Seq], got: &[Vec<Done>], pr: &str) -> R<()> {
    if matches!(p.kind, Kind::Forest { .. }) {
        let (_, want, wp) = &seq[0];
        for (t, ops) in got.iter().enumerate() {
            for (i, d) in ops.iter().enumerate() {
                ck!(d.res == want[t][i], "thread {} op {:?} returned {} but alone {}", t, p.threads[t][i], d.res, want[t][i]);
            }
        }
        ck!(pr == wp, "later reads return {} instead of {}", pr, wp);
        return Ok(());
    }
    if matches!(p.kind, Kind::Branch { .. }) {
        // a branch cache may forget at any time, but what it returns is what was put
        for (t, ops) in got.iter().enumerate() {
            for (i, d) in ops.iter().enumerate() {
                if let O::G(b) = p.threads[t][i] {
                    ck!(d.res != "false", "thread {} got a wrong branch for {}", t, b);
                    let put = p.threads.iter().enumerate().any(|(u, ops)| {
                        ops.iter()
                            .enumerate()
                            .any(|(j, o)| *o == O::P(b) && got[u][j].start < d.end)
                    });
                    ck!(d.res == "none" || put, "thread {} got branch {} that was not put yet", t, b);
                }
            }
        }
        for (b, r) in pr.split(' ').enumerate() {
            let put = p.threads.iter().flatten().any(|o| *o == O::P(b as u8));
            ck!(r != "false" && (r != "true" || put), "branch {} afterwards: {}", b, r);
        }
        return Ok(());
    }
    // evictions interact with write-through, so only the part that evictions cannot change is compared
    let ops: BTreeSet<O> = p.threads.iter().flatten().copied().collect();
    let (loose, total): (bool, usize) = match p.kind {
        Kind::Cache { cap, .. } => {
            let blocks: BTreeSet<u8> = ops
                .iter()
                .filter_map(|o| match o {
                    O::P(i) | O::F(i) => Some(*i),
                    _ => None,
                })
                .collect();
            let total: usize = blocks.iter().map(|i| block(*i).len()).sum();
            (total > cap && ops.iter().any(|o| matches!(o, O::P(_))), total)
        }
        _ => (false, 0),
    };
    let _ = total;
    'o: for (ord, res, sp) in seq {
        // real-time order: nothing that had ended may come after something that had not begun
        for (x, a) in ord.iter().enumerate() {
            for b in &ord[x + 1..] {
                if got[b.0][b.1].end < got[a.0][a.1].start {
                    continue 'o;
                }
            }
        }
        for (t, i) in ord {
            if got[*t][*i].res != res[*t][*i] {
                continue 'o;
            }
        }
        let eq = if loose {
            sp.split('|').nth(1) == pr.split('|').nth(1)
        } else {
            sp == pr
        };
        if eq {
            return Ok(());
        }
    }
    Err(format!(
        "no sequential order explains {:?} with final state {}",
        got.iter()
            .map(|t| t.iter().map(|d| format!("[{}-{}] {}", d.start, d.end, d.res)).collect::<Vec<_>>())
            .collect::<Vec<_>>(),
        pr
    ))
}

#[derive(Default, Debug, Clone, Copy)]
struct Stats {
    schedules: u64,
    steps: u64,
    preemptions: u64,
    sequential: u64,
    external: u64,
}

fn explore_prog(p: &Prog, stop: &dyn Fn() -> bool) -> R<Stats> {
    let s = SETUP.with(|s| s.clone());
    let seq = sequential(p, &s)?;
    let mut st = Stats {
        sequential: seq.len() as u64,
        ..Default::default()
    };
    let mut prefix: Vec<u8> = vec![];
    loop {
        let o = Arc::new(obj(&p.kind, &s)?);
        let bodies: Vec<Box<dyn FnOnce() -> R<Vec<Done>> + Send>> = p
            .threads
            .iter()
            .enumerate()
            .map(|(t, ops)| {
                let o = o.clone();
                let s = s.clone();
                let ops = ops.clone();
                let b: Box<dyn FnOnce() -> R<Vec<Done>> + Send> = Box::new(move || {
                    guard(|| {
                        let mut out = vec![];
                        for op in &ops {
                            sched::point();
                            let start = sched::tick();
                            let res = exec(&o, &s, t, op);
                            let end = sched::tick();
                            out.push(Done { start, end, res });
                        }
                        Ok(out)
                    })
                });
                b
            })
            .collect();
        let (res, out) = sched::run(&prefix, p.bound, bodies);
        let sch: Vec<u8> = out.trace.iter().map(|c| c.taken).collect();
        let at = |e: String| format!("{} [schedule {:?}]", e, sch);
        ck!(!out.deadlock, "deadlock [schedule {:?}]", sch);
        let mut got = vec![];
        for (t, r) in res.into_iter().enumerate() {
            match r {
                Ok(Ok(v)) => got.push(v),
                Ok(Err(e)) => return Err(at(format!("thread {}: {}", t, e))),
                Err(_) => return Err(at(format!("thread {} panicked", t))),
            }
        }
        let pr = probe(&o, &s, &p.kind).map_err(at)?;
        judge(p, &seq, &got, &pr).map_err(at)?;
        st.schedules += 1;
        st.steps += out.steps;
        st.preemptions += out.preemptions as u64;
        st.external += out.external;
        // threads stuck outside of the scheduler's control make schedules slow; give up on depth, not on soundness
        if st.external > 20 {
            return Ok(st);
        }
        match sched::next_prefix(&out.trace) {
            Some(n) if !stop() => prefix = n,
            _ => return Ok(st),
        }
    }
}

/// all multisets of `n` thread programs
fn multisets<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    fn go<T: Clone>(v: &[T], from: usize, n: usize, cur: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..v.len() {
            cur.push(v[i].clone());
            go(v, i, n - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(v, 0, n, &mut vec![], &mut out);
    out
}
fn words(a: &[O], n: usize) -> Vec<Vec<O>> {
    let mut out: Vec<Vec<O>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|w| {
                a.iter().map(move |o| {
                    let mut w = w.clone();
                    w.push(*o);
                    w
                })
            })
            .collect();
    }
    out
}
/// programs that cannot interact are left out
fn relevant(ts: &[Vec<O>]) -> bool {
    ts.iter().flatten().any(|o| !matches!(o, O::G(_)))
}

fn programs(ctx: &Ctx) -> Vec<Prog> {
    let mut out = vec![];
    let b2 = ctx.pick(2, 4);
    let mut add = |kind: Kind, ths: Vec<Vec<Vec<O>>>, bound: usize| {
        for threads in ths {
            if relevant(&threads) {
                out.push(Prog {
                    kind: kind.clone(),
                    threads,
                    bound,
                });
            }
        }
    };
    let st = [O::P(0), O::P(1), O::P(2), O::P(3), O::G(0), O::G(2)];
    for max in ctx.pick(vec![3, 6, 7, 8], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11]) {
        add(Kind::Store { max }, multisets(&words(&st, 2), 2), b2);
        add(Kind::Store { max }, multisets(&words(&st, 1), 3), ctx.pick(3, 99));
        if !ctx.quick() {
            add(Kind::Store { max }, multisets(&words(&st[..5], 3), 2), 3);
            add(Kind::Store { max }, multisets(&words(&st[..3], 2), 3), 2);
        }
    }
    // puts, offers and gets with room for all; offers and gets, or puts and gets, with little room
    let mixed = [O::P(0), O::F(0), O::F(2), O::P(2), O::G(0), O::G(2)];
    let offers = [O::F(0), O::F(1), O::F(2), O::G(0), O::G(2)];
    let puts = [O::P(0), O::P(1), O::P(2), O::G(0), O::G(2)];
    for (max_size, cap) in [(4, 100), (3, 100)] {
        add(Kind::Cache { max_size, cap }, multisets(&words(&mixed, 2), 2), b2);
        add(Kind::Cache { max_size, cap }, multisets(&words(&mixed, 1), 3), ctx.pick(2, 99));
    }
    for (max_size, cap) in ctx.pick(vec![(4, 6)], vec![(4, 6), (4, 7), (4, 3), (3, 6)]) {
        for a in [&offers, &puts] {
            add(Kind::Cache { max_size, cap }, multisets(&words(a, 2), 2), b2);
            add(Kind::Cache { max_size, cap }, multisets(&words(a, 1), 3), ctx.pick(2, 99));
        }
    }
    let s = SETUP.with(|s| s.clone());
    let br = [O::P(0), O::P(1), O::G(0), O::G(1), O::R(1), O::R(3)];
    for k in ctx.pick(vec![1, 3], vec![0, 1, 2, 3]) {
        let cap = bcap(&s, k);
        add(Kind::Branch { cap }, multisets(&words(&br, 2), 2), b2);
        add(Kind::Branch { cap }, multisets(&words(&br, 1), 3), ctx.pick(3, 99));
    }
    let mut fo: Vec<Vec<O>> = (0..NREAD).map(|i| vec![O::D(i)]).collect();
    fo.extend((0..NWRITE).map(|i| vec![O::W(i)]));
    for branch_cap in [0, 900, 1 << 20] {
        for (max_size, cap) in ctx.pick(vec![(0, 0), (1000, 400)], vec![(0, 0), (1000, 400), (1000, 1 << 20)]) {
            let k = Kind::Forest {
                branch_cap,
                max_size,
                cap,
            };
            add(k.clone(), multisets(&fo, 2), if branch_cap == 900 { 2 } else { ctx.pick(1, 2) });
            if !ctx.quick() {
                add(k, multisets(&fo, 3), 1);
            }
        }
    }
    out
}

pub fn explore(ctx: &Ctx) -> (&'static str, Value) {
    let progs = programs(ctx);
    let res = ctx.par(&progs, |p| {
        let st = explore_prog(p, &|| ctx.stopped())?;
        ctx.transitions.fetch_add(st.steps, SeqCst);
        ctx.validated.fetch_add(st.schedules, SeqCst);
        Ok(st)
    });
    let mut by: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    let mut t = Stats::default();
    for (p, r) in progs.iter().zip(res) {
        let Some(r) = r else { continue };
        let k = match p.kind {
            Kind::Store { .. } => "store",
            Kind::Cache { .. } => "cache",
            Kind::Branch { .. } => "branch cache",
            Kind::Forest { .. } => "forest",
        };
        let e = by.entry(k).or_default();
        e.0 += 1;
        e.1 += r.schedules;
        t.schedules += r.schedules;
        t.steps += r.steps;
        t.preemptions += r.preemptions;
        t.sequential += r.sequential;
        t.external += r.external;
        if r.schedules > 1 && (r.schedules % 7) == 0 {
            ctx.sample(|| format!("{:?}: {} schedules", p, r.schedules));
        }
    }
    ctx.states.fetch_add(t.sequential, SeqCst);
    for (k, (a, b)) in &by {
        ctx.count(&format!("programs on the {}", k), *a);
        ctx.count(&format!("schedules on the {}", k), *b);
    }
    ctx.count("preemptions", t.preemptions);
    ctx.count("threads stuck outside the scheduler", t.external);
    ctx.note("every lock acquisition, failed attempt and release of the real code is a scheduling point, as are the digest callback and operation boundaries; preemption bound per program is in the samples (99: unbounded)");
    ctx.note("states: sequential outcomes computed on the real code; transitions: scheduling points passed; validated: schedules judged");
    (
        "model_checking",
        json!({"schedules": t.schedules, "programs": progs.len()}),
    )
}

pub fn replay(v: &Value) -> R<()> {
    let p: Prog = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    explore_prog(&p, &|| false).map(|_| ())
}
