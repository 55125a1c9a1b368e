//! P31: an access reads only the blocks that can matter for it.
use crate::ck;
use crate::engine::*;
use crate::hist::*;
use crate::p04::pool;
use crate::q::*;
use crate::reads::*;
use crate::store::LogStore;
use crate::types::*;
use banyan::{index::*, store::BranchCache, *};
use futures::executor::block_on;
use futures::StreamExt;
use serde_json::Value;
use std::collections::BTreeMap;

const CACHE: usize = 1 << 30;

/// how often a block may be read
type May = BTreeMap<Sha, u32>;

fn add(m: &mut May, n: &Node) {
    if let Some(l) = n.index.link() {
        *m.entry(*l).or_default() += 1;
    }
}
fn branch(n: &Node) -> bool {
    matches!(n.index, Index::Branch(_))
}
/// what a filtered read may touch: branches with children that may match, leaves with a matching entry
fn filtered(n: &Node, q: &Q, leaves: bool, m: &mut May) {
    if n.index.link().is_none() {
        return;
    }
    match &n.index {
        Index::Branch(b) => {
            let may = q.may(n.offset, b);
            // index iteration looks into every node it comes to
            if !leaves || may.iter().any(|x| *x) {
                add(m, n);
            }
            for (c, _) in n.children.iter().zip(may).filter(|x| x.1) {
                filtered(c, q, leaves, m);
            }
        }
        Index::Leaf(l) => {
            if leaves && l.keys().enumerate().any(|(i, k)| q.matches(n.offset + i as u64, &k)) {
                add(m, n);
            }
        }
    }
}
/// all nodes that overlap the range
fn overlap(n: &Node, from: u64, to: u64, m: &mut May) {
    if n.range().end > from && n.range().start < to {
        add(m, n);
        for c in &n.children {
            overlap(c, from, to, m);
        }
    }
}
fn right_edge(n: &Node, m: &mut May) {
    add(m, n);
    if let Some(c) = n.children.last() {
        right_edge(c, m);
    }
}

fn reads<T>(s: &LogStore, f: impl FnOnce() -> R<T>) -> R<(T, Vec<Sha>)> {
    s.arm(|i| i.record_reads = true);
    let r = f();
    let l = s.with(|i| i.read_log.clone());
    s.disarm();
    Ok((r?, l))
}
fn within(what: &dyn Fn() -> String, got: &[Sha], may: &May, root: &Node) -> R<()> {
    let mut n = May::new();
    for l in got {
        *n.entry(*l).or_default() += 1;
    }
    for (l, k) in &n {
        let a = may.get(l).copied().unwrap_or(0);
        if *k > a {
            let mut w = "a block outside of the tree".to_string();
            root.visit(&mut |x| {
                if x.index.link().as_ref() == Some(&l) {
                    w = format!("{} {:?}", if branch(x) { "branch" } else { "leaf" }, x.range());
                }
            });
            return Err(format!("{}: {} read {} times, at most {} needed", what(), w, k, a));
        }
    }
    Ok(())
}

pub fn check31(h: &Hist, rich: bool) -> R<u64> {
    let w = World::run(h)?;
    let t = w.tree();
    let Some(i) = w.b.index() else { return Ok(0) };
    let root = load(&w.cold(0), i, 0)?;
    let s = &w.store;
    let n = w.model.len() as u64;
    let mut done = 0;
    let lim = w.model.len() + 5;
    let empty = May::new();
    for (k, q) in pool(&w, rich).iter().enumerate() {
        let (mut all, mut nodes) = (May::new(), May::new());
        filtered(&root, q, true, &mut all);
        filtered(&root, q, false, &mut nodes);
        let leaves: May = all.iter().filter(|x| !nodes.contains_key(x.0)).map(|(l, k)| (*l, *k)).collect();
        for rev in [false, true] {
            let f = w.cold(CACHE);
            let run = |f: &F, way: usize| -> R<()> {
                let c = q.compile();
                match (way % 3, rev) {
                    (0, false) => drain(f.iter_filtered(&t, c), lim).map(|_| ()),
                    (0, true) => drain(f.iter_filtered_reverse(&t, c), lim).map(|_| ()),
                    (1, false) => drain(f.iter_filtered_chunked(&t, c, &|_| ()), 4 * lim + 100).map(|_| ()),
                    (1, true) => drain(f.iter_filtered_chunked_reverse(&t, c, &|_| ()), 4 * lim + 100).map(|_| ()),
                    (_, false) => block_on(f.stream_filtered_chunked(&t, c, &|_| ()).collect::<Vec<_>>()).into_iter().collect::<anyhow::Result<Vec<_>>>().map(|_| ()).map_err(es),
                    (_, true) => block_on(f.stream_filtered_chunked_reverse(&t, c, &|_| ()).collect::<Vec<_>>()).into_iter().collect::<anyhow::Result<Vec<_>>>().map(|_| ()).map_err(es),
                }
            };
            let what = |s: &str| format!("query {:?} rev={} {}", q, rev, s);
            let (_, l) = reads(s, || run(&f, k))?;
            within(&|| what("cold"), &l, &all, &root)?;
            let (_, l) = reads(s, || run(&f, k + 1))?;
            within(&|| what("again, branches cached"), &l, &leaves, &root)?;
            let it = |f: &F| if rev { drain(f.iter_index_reverse(&t, q.compile()), 1 << 20) } else { drain(f.iter_index(&t, q.compile()), 1 << 20) };
            let f = w.cold(CACHE);
            let (_, l) = reads(s, || it(&f))?;
            within(&|| what("index"), &l, &nodes, &root)?;
            let (_, l) = reads(s, || it(&f))?;
            within(&|| what("index, branches cached"), &l, &empty, &root)?;
            done += 4;
        }
    }
    // positional reads
    let big = heavy(&w.model);
    let offs: Vec<u64> = if big { vec![0, n / 2, n] } else if n <= 40 { (0..n + 2).collect() } else { (0..n + 2).step_by((n / 17).max(1) as usize).chain([n - 1, n, n + 1]).collect() };
    for o in offs {
        let f = w.cold(0);
        let mut m = May::new();
        overlap(&root, o, o + 1, &mut m);
        let (_, l) = reads(s, || f.get(&t, o).map_err(es))?;
        within(&|| format!("get {}", o), &l, &m, &root)?;
        let mut m = May::new();
        overlap(&root, o, u64::MAX, &mut m);
        let (_, l) = reads(s, || f.collect_from(&t, o).map_err(es))?;
        within(&|| format!("collect_from {}", o), &l, &m, &root)?;
        done += 2;
    }
    // opening
    if let Some(link) = t.link() {
        let one: May = [(link, 1)].into_iter().collect();
        let (_, l) = reads(s, || w.cold(0).load_tree::<Val>(secrets(), link).map_err(es))?;
        within(&|| "load_tree".into(), &l, &one, &root)?;
        let (_, l) = reads(s, || w.cold(0).load_stream_builder::<Val>(secrets(), w.sc.cfg.config(), link).map_err(es))?;
        within(&|| "load_stream_builder".into(), &l, &one, &root)?;
        done += 2;
    }
    // appending
    let mut edge = May::new();
    right_edge(&root, &mut edge);
    for unpacked in [false, true] {
        for k in [1, 5] {
            let mut w2 = World::run(h)?;
            let s2 = w2.store.clone();
            let mut txn: Txn = Transaction::new(Forest::new(s2.clone(), BranchCache::new(CACHE)), s2.clone());
            let before = s2.with(|i| i.log.len());
            let b = &mut w2.b;
            let mut next = w.next;
            let it = items(&w.sc, &mut next, k);
            let (_, l) = reads(&s2, || if unpacked { txn.extend_unpacked(b, it).map_err(es) } else { txn.extend(b, it).map_err(es) })?;
            let m: May = if unpacked { May::new() } else { edge.clone() };
            within(&|| format!("append {} unpacked={}", k, unpacked), &l, &m, &root)?;
            // what is stored belongs to the new tree
            let new = load(&w2.cold(0), w2.b.index().unwrap(), 0)?;
            let mut used = May::new();
            new.visit(&mut |x| add(&mut used, x));
            let put: Vec<Sha> = s2.with(|i| i.log[before..].to_vec());
            for (i, p) in put.iter().enumerate() {
                ck!(used.contains_key(p), "append {} unpacked={}: block {} of {} that were stored is not part of the tree", k, unpacked, i, put.len());
            }
            done += 1;
        }
    }
    done += live(h)?;
    // packing
    {
        let mut w2 = World::run(h)?;
        let s2 = w2.store.clone();
        let mut txn: Txn = Transaction::new(Forest::new(s2.clone(), BranchCache::new(CACHE)), s2.clone());
        let b = &mut w2.b;
        let mut from = 0;
        for r in txn.roots(b).map_err(es)? {
            from += r.count();
        }
        let mut m = May::new();
        overlap(&root, from, u64::MAX, &mut m);
        root.visit(&mut |x| {
            if branch(x) {
                if let Some(l) = x.index.link() {
                    *m.entry(*l).or_default() += 1;
                }
            }
        });
        s2.arm(|i| i.record_reads = true);
        let _ = txn.pack(b);
        let l = s2.with(|i| i.read_log.clone());
        // whatever was there before the pack, no matter how often
        let mut l: Vec<Sha> = l.into_iter().filter(|x| s.raw(x).is_some()).collect();
        l.sort();
        l.dedup();
        within(&|| "pack".into(), &l, &m, &root)?;
        done += 1;
    }
    Ok(done)
}

/// a live stream over the trees after every operation
fn live(h: &Hist) -> R<u64> {
    if h.ops.len() < 2 || h.ops.len() > 8 || h.ops.iter().any(|o| matches!(o, Op::Z(_))) {
        return Ok(0);
    }
    let mut w = World::new(h.sc);
    let mut trees: Vec<(Tr, Node)> = vec![];
    for o in &h.ops {
        w.apply(o)?;
        let t = w.tree();
        if trees.last().map(|x| x.0.count()).unwrap_or(0) > t.count() {
            return Ok(0);
        }
        if let Some(i) = w.b.index() {
            let n = load(&w.cold(0), i, 0)?;
            trees.push((t, n));
        }
    }
    let n = w.model.len() as u64;
    if trees.len() < 2 || n > 100 {
        return Ok(0);
    }
    let mut done = 0;
    for (q, start, end) in [(Q::All, 0, u64::MAX), (Q::All, n / 2, u64::MAX), (Q::All, 1, n / 2 + 1), (Q::Key(1, n / 2), 0, u64::MAX), (Q::Off(B::I(n / 3), B::X(n)), 0, n - 1)] {
        let mut m = May::new();
        let mut from = start;
        for (t, root) in &trees {
            let mut x = May::new();
            filtered(root, &and(Q::Off(B::I(from), B::I(end)), q.clone()), true, &mut x);
            for (l, _) in x {
                m.insert(l, 1);
            }
            from = from.max(t.count());
        }
        let f = w.cold(CACHE);
        let ts = futures::stream::iter(trees.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        let (_, l) = reads(&w.store, || {
            block_on(f.stream_trees_chunked(q.compile(), ts, start..=end, &|_| ()).collect::<Vec<_>>()).into_iter().collect::<anyhow::Result<Vec<_>>>().map_err(es)
        })?;
        within(&|| format!("live stream {:?} {}..={}", q, start, end), &l, &m, &trees.last().unwrap().1)?;
        done += 1;
    }
    Ok(done)
}

pub fn replay31(v: &Value) -> R<()> {
    let c: crate::p04::RC = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check31(&c.h, c.rich).map(|_| ())
}
pub fn explore31(ctx: &Ctx) -> (&'static str, Value) {
    crate::p04::run_reads(ctx, check31)
}
