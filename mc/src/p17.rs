//! P17 live forward streams, P18 live reverse streams, P19 threaded live streams
use crate::engine::*;
use crate::hist::*;
use crate::p04::{extra, Ch, X};
use crate::q::*;
use crate::reads::*;
use crate::store::*;
use crate::types::*;
use banyan::query::{AndQuery, OffsetRangeQuery};
use banyan::store::{BranchCache, ReadOnlyStore};
use banyan::Forest;
use futures::channel::mpsc;
use futures::executor::ThreadPool;
use futures::task::{waker, ArcWake};
use futures::Stream;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

struct Count(AtomicU64);
impl ArcWake for Count {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.fetch_add(1, SeqCst);
    }
}

pub type Res = anyhow::Result<banyan::FilteredChunk<Trip, X>>;

fn ex(n: &banyan::index::NodeInfo<TT, LogStore>) -> X {
    extra(n)
}

/// polls until the stream is really waiting for something outside
fn settle<S: Stream + ?Sized>(s: &mut Pin<Box<S>>) -> Poll<Option<S::Item>> {
    let c = Arc::new(Count(AtomicU64::new(0)));
    let w = waker(c.clone());
    for _ in 0..10_000 {
        let before = c.0.load(SeqCst);
        match s.as_mut().poll_next(&mut Context::from_waker(&w)) {
            Poll::Pending if c.0.load(SeqCst) != before => continue,
            r => return r,
        }
    }
    Poll::Pending
}

/// what came out of a stream
#[derive(Default, Debug)]
struct Out {
    /// chunk and the number of trees that had been fed when it came
    chunks: Vec<(usize, Ch)>,
    /// number of trees fed when the stream ended
    ended: Option<usize>,
    /// trees during whose feeding a fault was hit
    faulted: Vec<bool>,
    err: Option<String>,
}

/// pol[i]: what happens before tree i is fed (and, last, before the source is closed):
/// 0 nothing, 1 one poll, 2 polling until nothing more comes
fn drive(mut s: Pin<Box<dyn Stream<Item = Res> + Send>>, tx: mpsc::UnboundedSender<Tr>, trees: &[Tr], pol: &[u8], store: &LogStore) -> R<Out> {
    let mut out = Out::default();
    let step = |out: &mut Out, s: &mut Pin<Box<dyn Stream<Item = Res> + Send>>, fed: usize, max: usize| -> R<()> {
        for _ in 0..max {
            if out.ended.is_some() {
                return Ok(());
            }
            match settle(s) {
                Poll::Pending => return Ok(()),
                Poll::Ready(None) => out.ended = Some(fed),
                Poll::Ready(Some(Ok(c))) => {
                    out.chunks.push((fed, Ch { range: c.range, data: c.data, extra: c.extra }));
                    crate::ck!(out.chunks.len() < 5000, "stream does not end");
                }
                Poll::Ready(Some(Err(e))) => out.err = Some(es(e)),
            }
        }
        Ok(())
    };
    let mut hits = store.with(|i| i.faults_hit);
    for (i, t) in trees.iter().enumerate() {
        step(&mut out, &mut s, i, [0, 1, 10_000][pol[i] as usize])?;
        let _ = tx.unbounded_send(t.clone());
        if pol[i + 1] == 2 {
            step(&mut out, &mut s, i + 1, 10_000)?;
        }
        let h = store.with(|i| i.faults_hit);
        out.faulted.push(h != hits);
        hits = h;
    }
    // the live stream has to deliver without waiting for more
    step(&mut out, &mut s, trees.len(), 10_000)?;
    if let Some(l) = out.faulted.last_mut() {
        *l |= store.with(|i| i.faults_hit) != hits;
    }
    drop(tx);
    step(&mut out, &mut s, trees.len() + 1, 10_000)?;
    crate::ck!(out.ended.is_some(), "stream does not end when the source does");
    Ok(out)
}

#[derive(Clone, Debug)]
struct P<'a> {
    seq: &'a [(Tr, Vec<Ent>)],
    start: u64,
    end: u64,
    q: &'a Q,
    /// every tree was read as far as possible before the next one came
    eager: bool,
}

fn valid(p: &P, o: &Out) -> R<()> {
    if let Some(e) = &o.err {
        return Err(format!("stream yields an error: {}", e));
    }
    for (fed, c) in &o.chunks {
        let mut last = None;
        for (off, k, v) in &c.data {
            crate::ck!(*off >= p.start && *off <= p.end, "offset {} outside of the requested range", off);
            crate::ck!(c.range.contains(off), "offset {} outside of its chunk {:?}", off, c.range);
            crate::ck!(last.map(|l| l < *off).unwrap_or(true), "chunk data not ascending");
            last = Some(*off);
            crate::ck!(p.q.matches(*off, k), "offset {} does not match the query", off);
            let ok = p.seq[..(*fed).min(p.seq.len())].iter().any(|(_, m)| m.get(*off as usize).map(|e| e.there && e.k == *k && e.v == *v).unwrap_or(false));
            crate::ck!(ok, "offset {}: wrong content {:?}", off, (k, v));
        }
    }
    Ok(())
}
fn want(p: &P, m: &[Ent], o: u64) -> bool {
    o >= p.start && o <= p.end && m[o as usize].there && p.q.matches(o, &m[o as usize].k)
}

/// every offset is delivered once, in order, and is there if a tree that contains it could be read
fn coverage(p: &P, o: &Out) -> R<()> {
    valid(p, o)?;
    let d: Vec<u64> = o.chunks.iter().flat_map(|(_, c)| c.data.iter().map(|x| x.0)).collect();
    crate::ck!(d.windows(2).all(|w| w[0] < w[1]), "not each once in order: {:?}", d);
    let top = p.seq.iter().map(|x| x.1.len() as u64).max().unwrap_or(0);
    let any_fault = o.faulted.iter().any(|x| *x);
    for off in 0..top {
        // trees that contain the offset
        let covering: Vec<usize> = (0..p.seq.len()).filter(|i| p.seq[*i].1.len() as u64 > off).collect();
        let got = d.contains(&off);
        if !any_fault {
            let w = want(p, &p.seq[covering[0]].1, off);
            crate::ck!(got == w, "offset {}: delivered {}, want {}", off, got, w);
        } else if covering.iter().any(|i| !o.faulted[*i]) && covering.iter().all(|i| want(p, &p.seq[*i].1, off)) {
            crate::ck!(got, "offset {} lost", off);
        }
    }
    Ok(())
}

fn judge_fwd(p: &P, o: &Out) -> R<()> {
    coverage(p, o)?;
    let any_fault = o.faulted.iter().any(|x| *x);
    // timing
    if p.eager && !any_fault {
        for (fed, c) in &o.chunks {
            for x in &c.data {
                let first = p.seq.iter().position(|s| s.1.len() as u64 > x.0).unwrap() + 1;
                crate::ck!(*fed == first, "offset {} delivered with tree {} instead of {}", x.0, fed, first);
            }
        }
    }
    // end
    let covers = |i: usize| p.seq[i].1.len() as u64 > p.end;
    let must = (0..p.seq.len()).find(|i| covers(*i) && !o.faulted[*i]).map(|x| x + 1);
    let may = (0..p.seq.len()).find(|i| covers(*i)).map(|x| x + 1);
    let ended = o.ended.unwrap();
    if let Some(m) = must {
        crate::ck!(ended <= p.seq.len(), "stream does not end although the end was covered");
        if p.eager {
            crate::ck!(ended <= m, "stream ends after tree {} instead of {}", ended, m);
        }
    }
    match may {
        None => crate::ck!(ended == p.seq.len() + 1, "stream ends before its end {} was covered", p.end),
        Some(m) => crate::ck!(ended >= m, "stream ends with tree {} but the end is only covered by tree {}", ended, m),
    }
    let n = o.chunks.len();
    for (i, (_, c)) in o.chunks.iter().enumerate() {
        crate::ck!(c.range.end <= p.end || i + 1 == n, "chunk after the end was covered");
    }
    if ended <= p.seq.len() {
        crate::ck!(o.chunks.last().map(|c| c.1.range.end > p.end).unwrap_or(false), "ended early");
    }
    // the chunks of one tree have no gaps
    for w in o.chunks.windows(2) {
        if w[0].0 == w[1].0 && !any_fault && p.eager {
            crate::ck!(w[0].1.range.end == w[1].1.range.start, "gap between chunks {:?} and {:?}", w[0].1.range, w[1].1.range);
        }
    }
    Ok(())
}

fn judge_rev(p: &P, o: &Out) -> R<()> {
    valid(p, o)?;
    let d: Vec<u64> = o.chunks.iter().flat_map(|(_, c)| c.data.iter().rev().map(|x| x.0)).collect();
    crate::ck!(d.windows(2).all(|w| w[0] > w[1]), "not each once in descending order: {:?}", d);
    let any_fault = o.faulted.iter().any(|x| *x);
    // the tree that delivered first
    let first = if any_fault {
        o.chunks.first().map(|c| c.0 - 1)
    } else {
        p.seq.iter().position(|x| !x.1.is_empty())
    };
    let unf = |i: usize| !p.seq[i].1.is_empty() && !o.faulted[i];
    if let Some(f) = first {
        let m = &p.seq[f].1;
        if !any_fault {
            let w: Vec<u64> = (0..m.len() as u64).rev().filter(|o| want(p, m, *o)).collect();
            crate::ck!(d == w, "delivered {:?} want {:?}", d, w);
        } else if let Some(u) = (f..p.seq.len()).find(|i| unf(*i)) {
            for off in 0..m.len() as u64 {
                if (f..=u).all(|i| want(p, &p.seq[i].1, off)) {
                    crate::ck!(d.contains(&off), "offset {} lost", off);
                }
            }
        }
    } else {
        crate::ck!(d.is_empty(), "delivered {:?}", d);
    }
    let ended = o.ended.unwrap();
    if let Some(u) = (0..p.seq.len()).find(|i| unf(*i)) {
        crate::ck!(ended <= p.seq.len(), "stream does not end although the start was covered");
        crate::ck!(!p.eager || ended <= u + 1, "stream ends with tree {} instead of {}", ended, u + 1);
    }
    let n = o.chunks.len();
    for (i, (_, c)) in o.chunks.iter().enumerate() {
        crate::ck!(c.range.start > p.start || i + 1 == n, "chunk after the start was covered");
    }
    if ended <= p.seq.len() {
        crate::ck!(o.chunks.last().map(|c| c.1.range.start <= p.start).unwrap_or(false), "ended before the start was covered");
    }
    Ok(())
}

/// all snapshots of a history, the first one empty
fn snaps(h: &Hist, w: &mut World) -> R<Vec<(Tr, Vec<Ent>)>> {
    let mut v = vec![(w.tree(), vec![])];
    for op in &h.ops {
        w.apply(op)?;
        v.push((w.tree(), w.model.clone()));
    }
    Ok(v)
}

/// all ascending index sequences with repetition of the given length
fn seqs(n: usize, len: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        v = v
            .into_iter()
            .flat_map(|s| {
                let lo = s.last().copied().unwrap_or(0);
                (lo..n).map(move |i| {
                    let mut s = s.clone();
                    s.push(i);
                    s
                })
            })
            .collect();
    }
    v
}

fn bounds(n: u64) -> Vec<(u64, u64)> {
    let mut e = vec![0, 1, n / 2, n.saturating_sub(1), n, n + 2];
    e.sort();
    e.dedup();
    let mut v = vec![];
    for a in &e {
        for b in &e {
            v.push((*a, *b));
        }
        v.push((*a, u64::MAX));
    }
    v
}

fn queries(n: u64) -> Vec<Q> {
    vec![Q::All, Q::Key(1, 1), Q::Std(0, n / 3, n.saturating_sub(1)), Q::Empty, or(Q::Key(0, 0), Q::Std(2, n / 2, 0))]
}

fn open(f: &F, rev: bool, q: DQ, s: u64, e: u64) -> (Pin<Box<dyn Stream<Item = Res> + Send>>, mpsc::UnboundedSender<Tr>) {
    let (tx, rx) = mpsc::unbounded();
    if rev {
        (Box::pin(f.stream_trees_chunked_reverse(q, rx, s..=e, &ex)), tx)
    } else {
        (Box::pin(f.stream_trees_chunked(q, rx, s..=e, &ex)), tx)
    }
}

fn check_live(h: &Hist, rev: bool, tier: Tier) -> R<u64> {
    let mut w = World::new(h.sc);
    let all = snaps(h, &mut w)?;
    let n = w.model.len() as u64;
    let mut cnt = 0;
    let pols: Vec<Vec<u8>> = {
        let mut v = vec![];
        for a in 0..3u8 {
            for b in 0..3u8 {
                for c in 0..3u8 {
                    for d in 0..3u8 {
                        if tier == Tier::Thorough || (a + b + c + d) % 4 == 0 || (b == c && c == d) {
                            v.push(vec![a, b, c, d]);
                        }
                    }
                }
            }
        }
        v
    };
    let f = w.cold(1 << 20);
    for (si, s) in seqs(all.len(), 3).into_iter().enumerate() {
        let seq: Vec<_> = s.iter().map(|i| all[*i].clone()).collect();
        let trees: Vec<Tr> = seq.iter().map(|x| x.0.clone()).collect();
        for (bi, (start, end)) in bounds(n).into_iter().enumerate() {
            for (qi, q) in queries(n).into_iter().enumerate() {
                // all schedules for some, the two extreme ones for all
                let full = (si + bi + qi) % 19 == 0;
                for pol in pols.iter() {
                    if !full && *pol != [2, 2, 2, 2] && *pol != [0, 0, 0, 0] {
                        continue;
                    }
                    let (st, tx) = open(&f, rev, q.compile(), start, end);
                    let p = P { seq: &seq, start, end, q: &q, eager: pol[1..].iter().all(|x| *x == 2) };
                    drive(st, tx, &trees, pol, &w.store)
                        .and_then(|o| if rev { judge_rev(&p, &o) } else { judge_fwd(&p, &o) })
                        .map_err(|e| format!("trees {:?} range {}..={} query {:?} schedule {:?}: {}", s, start, end, q, pol, e))?;
                    cnt += 1;
                }
                if !rev && start == 0 && end == u64::MAX {
                    // the flattened variant
                    let got = block_flat(&f, &q, &trees)?;
                    let top = seq.iter().map(|x| x.1.len()).max().unwrap_or(0);
                    let exp: Vec<Trip> = (0..top as u64)
                        .filter_map(|o| {
                            let m = &seq.iter().find(|x| x.1.len() as u64 > o).unwrap().1[o as usize];
                            if m.there && q.matches(o, &m.k) {
                                Some((o, m.k, m.v.clone()))
                            } else {
                                None
                            }
                        })
                        .collect();
                    diff(&format!("stream_trees {:?} {:?}", s, q), &got, &exp)?;
                }
            }
        }
    }
    // faults
    for s in seqs(all.len(), 3) {
        let seq: Vec<_> = s.iter().map(|i| all[*i].clone()).collect();
        let trees: Vec<Tr> = seq.iter().map(|x| x.0.clone()).collect();
        for (start, end) in [(0, u64::MAX), (0, n.saturating_sub(1)), (1, n / 2), (n / 2, n), (2, n.saturating_sub(2))] {
            for q in [Q::All, Q::Key(1, 1)] {
                for len in [1u64, 3] {
                    for k in (0..200).step_by(if n > 30 { 17 } else { 1 }) {
                        w.store.arm(|i| {
                            for j in k..k + len {
                                i.fail_gets.insert(j);
                            }
                        });
                        let (st, tx) = open(&w.cold(0), rev, q.compile(), start, end);
                        let p = P { seq: &seq, start, end, q: &q, eager: true };
                        drive(st, tx, &trees, &[2, 2, 2, 2], &w.store)
                            .and_then(|o| if rev { judge_rev(&p, &o) } else { judge_fwd(&p, &o) })
                            .map_err(|e| format!("trees {:?} range {}..={} query {:?} faults at {}+{}: {}", s, start, end, q, k, len, e))?;
                        cnt += 1;
                        let hit = w.store.with(|i| i.faults_hit);
                        w.store.disarm();
                        if hit == 0 {
                            break;
                        }
                    }
                }
            }
        }
    }
    Ok(cnt)
}

fn block_flat(f: &F, q: &Q, trees: &[Tr]) -> R<Vec<Trip>> {
    let (tx, rx) = mpsc::unbounded();
    let mut s: Pin<Box<dyn Stream<Item = anyhow::Result<Trip>> + Send>> = Box::pin(f.stream_trees(q.compile(), rx));
    let mut out = vec![];
    let mut tx = Some(tx);
    for t in trees {
        let _ = tx.as_ref().unwrap().unbounded_send(t.clone());
        while let Poll::Ready(x) = settle(&mut s) {
            match x {
                Some(x) => out.push(x.map_err(es)?),
                None => return Err("unbounded stream ends".into()),
            }
            crate::ck!(out.len() < 5000, "stream does not end");
        }
    }
    tx.take();
    while let Poll::Ready(Some(x)) = settle(&mut s) {
        out.push(x.map_err(es)?);
    }
    Ok(out)
}

#[derive(Serialize, Deserialize, Clone)]
struct C17 {
    #[serde(flatten)]
    h: Hist,
    thorough: bool,
}
fn tier(c: &C17) -> Tier {
    if c.thorough {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

pub fn replay17(v: &Value) -> R<()> {
    let c: C17 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check_live(&c.h, false, tier(&c)).map(|_| ())
}
pub fn replay18(v: &Value) -> R<()> {
    let c: C17 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check_live(&c.h, true, tier(&c)).map(|_| ())
}

fn cases(ctx: &Ctx, max: u64, depth: usize) -> Vec<C17> {
    let mut v = vec![];
    for (l, k, s, kp) in [(2, 2, 2, 0), (1, 2, 2, 2), (3, 2, 3, 1), (4, 3, 2, 2)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let a = vec![Op::E(1), Op::E(3), Op::E(6), Op::U(1), Op::U(3), Op::P, Op::F(Q::Std(2, 2, 0)), Op::F(Q::Key(1, 1))];
        for h in catalogue(ctx, sc, &Bfs { alphabet: a, depth, max_count: max }) {
            if !h.ops.is_empty() {
                v.push(C17 { h, thorough: !ctx.quick() });
            }
        }
    }
    v
}

fn explore(ctx: &Ctx, rev: bool) -> (&'static str, Value) {
    let mut c = cases(ctx, ctx.pick(10, 14), ctx.pick(3, 4));
    // long leaves, wide branches, many levels
    for (l, k, s, kp, a, b) in [(66, 2, 2, 2, 31, 35), (40, 2, 2, 1, 33, 9), (1, 66, 66, 2, 63, 4), (1, 1, 2, 2, 17, 20), (2, 2, 2, 4, 33, 33)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        for ops in [vec![Op::E(a), Op::E(b)], vec![Op::U(a), Op::U(b)], vec![Op::E(a + b), Op::F(Q::Key(1, 1))]] {
            c.push(C17 { h: Hist { sc, ops }, thorough: false });
        }
    }
    ctx.note("for every history: all ascending sequences (with repetition, starting empty or not) of 3 of its snapshots x start/end bounds around all edges x 5 queries; eager and lazy consumption for all, all 81 poll/arrival schedules (quick: 39) for every 19th; read faults (single / 3 in a row) at every position".to_string());
    let r = ctx.par(&c, |c| check_live(&c.h, rev, tier(c)));
    let n: u64 = r.iter().flatten().sum();
    ctx.count("stream runs", n);
    ctx.count("histories", c.len() as u64);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ("model_checking", Value::Null)
}
pub fn explore17(ctx: &Ctx) -> (&'static str, Value) {
    explore(ctx, false)
}
pub fn explore18(ctx: &Ctx) -> (&'static str, Value) {
    explore(ctx, true)
}

// ---------------------------------------------------------------------------------- P19

#[derive(Default)]
struct GateState {
    /// number of reads that may proceed
    permits: u64,
    open: bool,
    waiting: u64,
    gets: u64,
}
/// store whose reads wait for a permit
#[derive(Clone)]
pub struct Gate {
    inner: LogStore,
    st: Arc<(Mutex<GateState>, Condvar)>,
}
impl Gate {
    fn new(inner: LogStore) -> Self {
        Gate { inner, st: Default::default() }
    }
    fn release(&self, n: u64) {
        self.st.0.lock().unwrap().permits += n;
        self.st.1.notify_all();
    }
    fn open(&self) {
        self.st.0.lock().unwrap().open = true;
        self.st.1.notify_all();
    }
    fn gets(&self) -> u64 {
        self.st.0.lock().unwrap().gets
    }
}
impl ReadOnlyStore<Sha> for Gate {
    fn get(&self, l: &Sha) -> anyhow::Result<Box<[u8]>> {
        let mut g = self.st.0.lock().unwrap();
        g.gets += 1;
        g.waiting += 1;
        self.st.1.notify_all();
        while !g.open && g.permits == 0 {
            g = self.st.1.wait(g).unwrap();
        }
        if !g.open {
            g.permits -= 1;
        }
        g.waiting -= 1;
        drop(g);
        self.inner.get(l)
    }
}

type GF = Forest<TT, Gate>;

fn exg(n: &banyan::index::NodeInfo<TT, Gate>) -> X {
    extra(n)
}

#[derive(Serialize, Deserialize, Clone)]
struct C19 {
    #[serde(flatten)]
    h: Hist,
    /// indices of the snapshots used
    seq: Vec<usize>,
    q: Q,
    start: u64,
    end: u64,
    /// interleavings up to this number of switches
    switches: usize,
}

struct Rig {
    pool: ThreadPool,
    gate: Gate,
}
impl Rig {
    /// waits until the background task can not go on by itself: waiting for a permit, for the consumer, or done
    fn quiesce(&self) -> R<()> {
        let done = Arc::new(Mutex::new(false));
        let d2 = done.clone();
        let st = self.gate.st.clone();
        self.pool.spawn_ok(async move {
            *d2.lock().unwrap() = true;
            let _g = st.0.lock().unwrap();
            st.1.notify_all();
        });
        let t0 = Instant::now();
        let mut g = self.gate.st.0.lock().unwrap();
        loop {
            if *done.lock().unwrap() || (g.waiting > 0 && g.permits == 0 && !g.open) {
                return Ok(());
            }
            crate::ck!(t0.elapsed() < Duration::from_secs(20), "background thread is stuck");
            g = self.gate.st.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mv {
    Permit,
    Poll,
}

fn expected(w: &World, seq: &[(Tr, Vec<Ent>)], q: &Q, start: u64, end: u64) -> R<Vec<Ch>> {
    let f = w.cold(1 << 20);
    let mut cur = start;
    let mut out = vec![];
    for (t, m) in seq {
        if m.is_empty() {
            continue;
        }
        let qq = AndQuery(OffsetRangeQuery::from(cur..=end), q.compile());
        for c in f.iter_filtered_chunked(t, qq, &ex) {
            let c = c.map_err(es)?;
            cur = cur.max(c.range.end);
            out.push(Ch { range: c.range, data: c.data, extra: c.extra });
        }
    }
    Ok(out)
}

/// one run; `moves` first, then everything is let loose. `drop_at`: drop the stream after that many moves
fn run19(c: &C19, w: &World, seq: &[(Tr, Vec<Ent>)], moves: &[Mv], dropped: bool, pool: &ThreadPool) -> R<(Vec<Ch>, u64)> {
    let rig = Rig { pool: pool.clone(), gate: Gate::new(w.store.clone()) };
    let f: GF = Forest::new(rig.gate.clone(), BranchCache::new(0));
    let trees: Vec<Tr> = seq.iter().map(|x| x.0.clone()).collect();
    let mut s = Box::pin(f.stream_trees_chunked_threaded(c.q.compile(), futures::stream::iter(trees), c.start..=c.end, &exg, pool.clone()));
    let mut out = vec![];
    let mut ended = false;
    let take = |s: &mut Pin<Box<_>>, out: &mut Vec<Ch>, ended: &mut bool| -> R<bool> {
        fn poll<S: Stream<Item = Res>>(s: &mut Pin<Box<S>>) -> Poll<Option<Res>> {
            settle(s)
        }
        match poll(s) {
            Poll::Pending => Ok(false),
            Poll::Ready(None) => {
                *ended = true;
                Ok(false)
            }
            Poll::Ready(Some(x)) => {
                let x = x.map_err(es)?;
                out.push(Ch { range: x.range, data: x.data, extra: x.extra });
                Ok(true)
            }
        }
    };
    for m in moves {
        match m {
            Mv::Permit => rig.gate.release(1),
            Mv::Poll => {
                if !ended {
                    take(&mut s, &mut out, &mut ended)?;
                }
            }
        }
        rig.quiesce()?;
    }
    if dropped {
        drop(s);
        let before = rig.gate.gets();
        rig.gate.open();
        // the background task has to finish: a marker task gets its turn
        rig.quiesce()?;
        return Ok((out, rig.gate.gets() - before));
    }
    rig.gate.open();
    let t0 = Instant::now();
    while !ended {
        if !take(&mut s, &mut out, &mut ended)? && !ended {
            rig.quiesce()?;
            crate::ck!(t0.elapsed() < Duration::from_secs(30), "stream does not end");
        }
        crate::ck!(out.len() < 5000, "stream does not end");
    }
    Ok((out, 0))
}

fn check19(c: &C19) -> R<u64> {
    let mut w = World::new(c.h.sc);
    let all = snaps(&c.h, &mut w)?;
    let seq: Vec<_> = c.seq.iter().map(|i| all[*i].clone()).collect();
    let exp = expected(&w, &seq, &c.q, c.start, c.end)?;
    let pool = ThreadPool::builder().pool_size(1).create().map_err(|e| e.to_string())?;
    // reads needed when nothing is held back
    let reads = {
        let st = w.store.copy();
        let w2: F = Forest::new(st.clone(), BranchCache::new(0));
        let mut cur = c.start;
        for (t, m) in &seq {
            if !m.is_empty() {
                let qq = AndQuery(OffsetRangeQuery::from(cur..=c.end), c.q.compile());
                for x in w2.iter_filtered_chunked(t, qq, &ex) {
                    cur = cur.max(x.map_err(es)?.range.end);
                }
            }
        }
        st.with(|i| i.gets)
    };
    let polls = exp.len() as u64 + 1;
    let mut n = 0;
    // a block that can not be read, at every position; the reads are in sequence
    let reads0 = {
        let st = w.store.copy();
        let w2: F = Forest::new(st.clone(), BranchCache::new(0));
        let qq = AndQuery(OffsetRangeQuery::from(c.start..=c.end), c.q.compile());
        if let Some((t, _)) = seq.first() {
            w2.iter_filtered_chunked(t, qq, &ex).count();
        }
        st.with(|i| i.gets)
    };
    for k in 0..200 {
        let mut hit = 0;
        for moves in [vec![], vec![Mv::Permit; 2], vec![Mv::Permit, Mv::Poll, Mv::Permit]] {
            w.store.arm(|i| {
                i.fail_gets.insert(k);
            });
            let r = run19(c, &w, &seq, &moves, false, &pool);
            hit = w.store.with(|i| i.faults_hit);
            w.store.disarm();
            n += 1;
            let err = |e| format!("read {} fails, moves {:?}: {}", k, moves, e);
            let (got, _) = r.map_err(err)?;
            let p = P { seq: &seq, start: c.start, end: c.end, q: &c.q, eager: false };
            // the chunks of the first tree that could be read come first
            let o = Out {
                chunks: got.into_iter().map(|x| (seq.len(), x)).collect(),
                ended: None,
                faulted: (0..seq.len()).map(|i| hit > 0 && (k < reads0) == (i == 0)).collect(),
                err: None,
            };
            coverage(&p, &o).map_err(err)?;
        }
        if hit == 0 {
            break;
        }
    }
    // all interleavings of permits and polls with at most `switches` changes of turn
    let mut todo: Vec<(Vec<Mv>, u64, u64, usize)> = vec![(vec![], 0, 0, 0)];
    while let Some((mv, p, q, sw)) = todo.pop() {
        let mut leaf = true;
        for m in [Mv::Permit, Mv::Poll] {
            let (p2, q2) = if m == Mv::Permit { (p + 1, q) } else { (p, q + 1) };
            let sw2 = sw + mv.last().map(|l| *l != m).unwrap_or(false) as usize;
            if p2 <= reads && q2 <= polls && sw2 <= c.switches {
                let mut v = mv.clone();
                v.push(m);
                leaf = false;
                todo.push((v, p2, q2, sw2));
            }
        }
        if leaf {
            n += 1;
            let (got, _) = run19(c, &w, &seq, &mv, false, &pool).map_err(|e| format!("schedule {:?}: {}", mv, e))?;
            diff(&format!("schedule {:?}", mv), &got, &exp)?;
        }
        // early drop here
        if sw <= 1 || leaf {
            n += 1;
            let (got, reads_after) = run19(c, &w, &seq, &mv, true, &pool).map_err(|e| format!("drop after {:?}: {}", mv, e))?;
            crate::ck!(got.len() <= exp.len() && got[..] == exp[..got.len()], "drop after {:?}: got {:?}", mv, got);
            // at most the chunk under way: one path of the tree
            let height = seq.iter().map(|x| x.0.level().max(0) as u64).max().unwrap_or(0);
            crate::ck!(reads_after <= 2 * (height + 2), "drop after {:?}: background work goes on for {} reads", mv, reads_after);
        }
    }
    Ok(n)
}
pub fn replay19(v: &Value) -> R<()> {
    let c: C19 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check19(&c).map(|_| ())
}
pub fn explore19(ctx: &Ctx) -> (&'static str, Value) {
    let mut v = vec![];
    for c in cases(ctx, ctx.pick(7, 9), ctx.pick(2, 3)) {
        let k = c.h.ops.len();
        let n = size_of(&c.h.ops);
        for s in seqs(k + 1, 2) {
            for (start, end) in [(0, u64::MAX), (1, n / 2 + 1), (n / 2, n)] {
                for q in [Q::All, Q::Key(1, 1)] {
                    v.push(C19 { h: c.h.clone(), seq: s.clone(), q, start, end, switches: ctx.pick(2, 4) });
                }
            }
        }
    }
    // a long tree, so that stopping the background work shows
    for sw in [1, 2] {
        v.push(C19 { h: Hist { sc: Sc::new(Cfg::new(1, 3, 3)), ops: vec![Op::E(40)] }, seq: vec![1], q: Q::All, start: 0, end: u64::MAX, switches: sw });
    }
    ctx.note("store reads of the background thread are gated; all interleavings of single reads and single polls with a bounded number of turn changes, and dropping the stream at every point with at most one turn change".to_string());
    let r = ctx.par(&v, check19);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("cases", v.len() as u64);
    ctx.count("schedules", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ("model_checking", Value::Null)
}
