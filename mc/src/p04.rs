//! P04 filtered reads, P05 chunked reads, P06 index iteration
use crate::engine::*;
use crate::hist::*;
use crate::q::*;
use crate::reads::*;
use crate::types::*;
use banyan::index::{BranchIndex, Index, LeafIndex, NodeInfo};
use banyan::query::Query;
use banyan::FilteredChunk;
use futures::executor::block_on;
use futures::StreamExt;
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

/// base queries whose bounds hit every interesting offset of a stream of n elements
pub fn offsets(n: u64, rich: bool) -> Vec<Q> {
    let mut v = vec![Q::All, Q::Empty];
    let edge: Vec<u64> = if n <= 14 {
        (0..=n + 1).collect()
    } else {
        let mut e: Vec<u64> = vec![
            0,
            1,
            2,
            3,
            4,
            5,
            7,
            8,
            n / 3,
            n / 2,
            n - 3,
            n - 2,
            n - 1,
            n,
            n + 1,
        ];
        for p in [31, 32, 33, 40, 63, 64, 65, 80, 127, 128, 129, 160] {
            if p < n {
                e.push(p)
            }
        }
        e.sort();
        e.dedup();
        e
    };
    for a in &edge {
        for b in &edge {
            v.push(Q::Std(0, *a, *b));
        }
    }
    if rich {
        for a in &edge {
            for b in &edge {
                for (x, y) in [
                    (B::I(*a), B::I(*b)),
                    (B::X(*a), B::X(*b)),
                    (B::X(*a), B::I(*b)),
                    (B::I(*a), B::X(*b)),
                ] {
                    v.push(Q::Off(x, y));
                }
            }
            for k in 1..6 {
                v.push(Q::Std(k, *a, a.saturating_add(2)));
            }
            v.push(Q::Off(B::X(*a), B::U));
            v.push(Q::Off(B::U, B::X(*a)));
            v.push(Q::Off(B::U, B::I(*a)));
        }
        for (a, b) in [
            (0, u64::MAX),
            (u64::MAX - 1, u64::MAX),
            (u64::MAX, u64::MAX),
            (u64::MAX, 0),
            (3, u64::MAX),
        ] {
            for k in 0..5 {
                v.push(Q::Std(k, a, b));
            }
            for (x, y) in [
                (B::X(a), B::X(b)),
                (B::X(a), B::I(b)),
                (B::X(a), B::U),
                (B::U, B::X(b)),
            ] {
                v.push(Q::Off(x, y));
            }
        }
    }
    v
}

pub fn keys(model: &[Ent]) -> Vec<Q> {
    let mut ks: BTreeSet<u64> = model.iter().map(|e| e.k.0).collect();
    ks.insert(0);
    let ks: Vec<u64> = if ks.len() > 12 {
        let v: Vec<_> = ks.into_iter().collect();
        let st = v.len() / 11;
        v.iter().step_by(st.max(1)).copied().collect()
    } else {
        ks.into_iter().collect()
    };
    let mut v = vec![];
    for (i, a) in ks.iter().enumerate() {
        for b in &ks[i..] {
            v.push(Q::Key(*a, *b));
        }
    }
    v.push(Q::Key(5, 4));
    v
}

/// combinations of a small set of base queries
pub fn combos(n: u64, deep: bool) -> Vec<Q> {
    let h = n / 2;
    let base = vec![
        Q::All,
        Q::Empty,
        Q::Std(0, 1, h + 1),
        Q::Std(2, h, 0),
        Q::Std(4, 0, h),
        Q::Off(B::X(0), B::I(n.saturating_sub(2))),
        Q::Key(1, 1),
        Q::Key(2, h + 2),
        Q::Key(0, 0),
    ];
    let mut v = vec![];
    for a in &base {
        v.push(Q::Dyn(Box::new(a.clone())));
        for b in &base {
            v.push(and(a.clone(), b.clone()));
            v.push(or(a.clone(), b.clone()));
        }
    }
    if deep {
        let two: Vec<Q> = v.clone();
        for a in base.iter().skip(1) {
            for t in two.iter().skip(3).step_by(2) {
                v.push(and(a.clone(), Q::Dyn(Box::new(t.clone()))));
                v.push(or(t.clone(), a.clone()));
            }
        }
    }
    v
}

/// coarse grained pool for long streams
fn large(w: &World) -> Vec<Q> {
    let n = w.model.len() as u64;
    let mut e: Vec<u64> = vec![0, 1, n / 3, n / 2, n - 1, n];
    if !heavy(&w.model) {
        for p in [32u64, 64, 128, 255, 256, 257, 512, 1024, 2048, 4096] {
            e.extend([p - 1, p, p + 1]);
        }
    }
    e.retain(|x| *x <= n);
    e.sort();
    e.dedup();
    let mut v = vec![Q::All, Q::Empty];
    for (i, a) in e.iter().enumerate() {
        v.push(Q::Std(0, 0, *a));
        v.push(Q::Std(2, *a, 0));
        v.push(Q::Std(0, *a, *a + 1));
        v.push(Q::Off(B::X(*a), B::I(e[(i * 7 + 3) % e.len()])));
    }
    let k = keys(&w.model);
    v.extend(k.iter().step_by(k.len() / 9 + 1).cloned());
    let c = combos(n, false);
    v.extend(c.iter().step_by(c.len() / 23 + 1).cloned());
    if heavy(&w.model) || n > 1500 || w.sc.cfg.leaf == 1 && n > 60 {
        v = v.into_iter().step_by(4).collect();
    }
    v
}

pub fn pool(w: &World, rich: bool) -> Vec<Q> {
    let n = w.model.len() as u64;
    if n > 220 || heavy(&w.model) || !rich && w.sc.cfg.leaf == 1 && n > 60 {
        return large(w);
    }
    let mut v = offsets(n, rich);
    v.extend(keys(&w.model));
    v.extend(combos(n, rich));
    v
}

pub fn want(q: &Q, model: &[Ent]) -> Vec<Trip> {
    there(model)
        .into_iter()
        .filter(|(o, k, _)| q.matches(*o, k))
        .collect()
}

fn leaf_ranges(w: &World) -> R<Vec<std::ops::Range<u64>>> {
    let mut v = vec![];
    if let Some(i) = w.b.index() {
        let f = w.cold(0);
        let n = load(&f, i, 0)?;
        n.visit(&mut |x| {
            if x.children.is_empty() {
                v.push(x.range())
            }
        });
    }
    Ok(v)
}

fn one04(f: &F, t: &Tr, q: &Q, model: &[Ent], leaves: &[std::ops::Range<u64>]) -> R<usize> {
    let want = want(q, model);
    let lim = model.len() + 5;
    let got = drain(f.iter_filtered(t, q.compile()), lim)?;
    diff("iter_filtered", &got, &want)?;
    let got: Vec<_> = block_on(
        f.stream_filtered(t, q.compile())
            .take(lim)
            .collect::<Vec<_>>(),
    );
    let got = got
        .into_iter()
        .collect::<anyhow::Result<Vec<_>>>()
        .map_err(es)?;
    diff("stream_filtered", &got, &want)?;
    // chunks of the reverse iteration are leaves
    let mut rev = vec![];
    for l in leaves.iter().rev() {
        rev.extend(want.iter().filter(|x| l.contains(&x.0)).cloned());
    }
    let got = drain(f.iter_filtered_reverse(t, q.compile()), lim)?;
    diff("iter_filtered_reverse", &got, &rev)?;
    Ok(want.len())
}

pub fn check04(h: &Hist, rich: bool) -> R<u64> {
    let w = World::run(h)?;
    let t = w.tree();
    let leaves = leaf_ranges(&w)?;
    let cold = w.cold(0);
    let small = w.cold(600);
    let mut nq = 0;
    let mut outcomes = BTreeSet::new();
    for (i, q) in pool(&w, rich).iter().enumerate() {
        let f = match i % 3 {
            0 => w.forest(),
            1 => &cold,
            _ => &small,
        };
        let k = one04(f, &t, q, &w.model, &leaves).map_err(|e| format!("query {:?}: {}", q, e))?;
        outcomes.insert(k);
        nq += 1;
    }
    // dropping a filtered stream half way must not disturb anything
    let mut it = w.forest().iter_filtered(&t, Q::All.compile());
    let _ = it.next();
    drop(it);
    // and the same through the root link
    if let Some(l) = w.b.link() {
        let f = w.cold(1 << 20);
        let t2: Tr = f.load_tree(secrets(), l).map_err(es)?;
        for q in combos(w.model.len() as u64, false) {
            one04(&f, &t2, &q, &w.model, &leaves)
                .map_err(|e| format!("reloaded, query {:?}: {}", q, e))?;
            nq += 1;
        }
    }
    Ok(nq)
}

#[derive(Clone, Debug, PartialEq)]
pub struct X {
    leaf: bool,
    purged: bool,
    count: u64,
    link: Option<Sha>,
    sealed: bool,
    level: u32,
}
impl X {
    pub fn of(i: &Index<TT>) -> X {
        X {
            leaf: matches!(i, Index::Leaf(_)),
            purged: i.link().is_none(),
            count: i.count(),
            link: *i.link(),
            sealed: i.sealed(),
            level: i.level(),
        }
    }
}

pub fn extra<S>(i: &NodeInfo<TT, S>) -> X {
    match i {
        NodeInfo::Branch(i, _) => {
            let x = X::of(&Index::Branch(i.clone()));
            X { purged: false, ..x }
        }
        NodeInfo::PurgedBranch(i) => X {
            purged: true,
            ..X::of(&Index::Branch(i.clone()))
        },
        NodeInfo::Leaf(i, _) => X {
            purged: false,
            ..X::of(&Index::Leaf(i.clone()))
        },
        NodeInfo::PurgedLeaf(i) => X {
            purged: true,
            ..X::of(&Index::Leaf(i.clone()))
        },
    }
}

pub type Ch = FilteredChunk<(u64, K, Val), X>;

fn nodes(w: &World) -> R<Vec<(u64, X)>> {
    let mut v = vec![];
    if let Some(i) = w.b.index() {
        let f = w.cold(0);
        load(&f, i, 0)?.visit(&mut |n| v.push((n.offset, X::of(&n.index))));
    }
    Ok(v)
}

/// chunks (in ascending order) tile lo..hi and carry the right data
pub fn tiles(chunks: &[Ch], n: u64, want: &[Trip], nodes: &[(u64, X)]) -> R<()> {
    let mut pos = 0;
    let mut k = 0;
    for c in chunks {
        crate::ck!(
            c.range.start == pos,
            "chunk {:?} starts at {} instead of {}",
            c.range,
            c.range.start,
            pos
        );
        crate::ck!(
            c.range.end > c.range.start,
            "empty chunk range {:?}",
            c.range
        );
        pos = c.range.end;
        let mut d = vec![];
        while k < want.len() && want[k].0 < pos {
            d.push(want[k].clone());
            k += 1;
        }
        diff(&format!("data of chunk {:?}", c.range), &c.data, &d)?;
        crate::ck!(
            nodes.iter().any(|(o, x)| *o == c.range.start
                && x.count == c.range.end - c.range.start
                && *x == c.extra),
            "extra of chunk {:?} is computed from {:?}, which is not a node of that range",
            c.range,
            c.extra
        );
    }
    crate::ck!(pos == n, "chunks end at {} instead of {}", pos, n);
    Ok(())
}

fn one05(f: &F, t: &Tr, q: &Q, w: &World, nodes: &[(u64, X)]) -> R<usize> {
    let n = w.model.len() as u64;
    let want = want(q, &w.model);
    let lim = nodes.len() + 5;
    let fw: Vec<Ch> = drain(f.iter_filtered_chunked(t, q.compile(), &extra), lim)?;
    tiles(&fw, n, &want, nodes).map_err(|e| format!("forward: {}", e))?;
    let mut bw: Vec<Ch> = drain(f.iter_filtered_chunked_reverse(t, q.compile(), &extra), lim)?;
    bw.reverse();
    tiles(&bw, n, &want, nodes).map_err(|e| format!("reverse: {}", e))?;
    let same = |a: &[Ch], b: &[Ch]| {
        a.len() == b.len()
            && a.iter()
                .zip(b)
                .all(|(x, y)| x.range == y.range && x.data == y.data && x.extra == y.extra)
    };
    let s: Vec<_> = block_on(
        f.stream_filtered_chunked(t, q.compile(), &extra)
            .take(lim)
            .collect::<Vec<_>>(),
    );
    let s: Vec<Ch> = s.into_iter().collect::<anyhow::Result<_>>().map_err(es)?;
    crate::ck!(
        same(&s, &fw),
        "stream_filtered_chunked differs from the iterator"
    );
    let s: Vec<_> = block_on(
        f.stream_filtered_chunked_reverse(t, q.compile(), &extra)
            .take(lim)
            .collect::<Vec<_>>(),
    );
    let mut s: Vec<Ch> = s.into_iter().collect::<anyhow::Result<_>>().map_err(es)?;
    s.reverse();
    crate::ck!(
        same(&s, &bw),
        "stream_filtered_chunked_reverse differs from the iterator"
    );
    Ok(fw.len())
}

pub fn check05(h: &Hist, rich: bool) -> R<u64> {
    let w = World::run(h)?;
    let t = w.tree();
    let nodes = nodes(&w)?;
    let cold = w.cold(0);
    let mut nq = 0;
    for (i, q) in pool(&w, rich).iter().enumerate() {
        let f = if i % 2 == 0 { w.forest() } else { &cold };
        one05(f, &t, q, &w, &nodes).map_err(|e| format!("query {:?}: {}", q, e))?;
        nq += 1;
    }
    Ok(nq)
}

#[derive(Debug, Clone)]
struct Rec {
    q: DQ,
    log: Arc<Mutex<Vec<(u64, X)>>>,
}
impl Query<TT> for Rec {
    fn containing(&self, o: u64, x: &LeafIndex<TT>, res: &mut [bool]) {
        self.log.lock().unwrap().push((o, X::of(&x.clone().into())));
        self.q.containing(o, x, res)
    }
    fn intersecting(&self, o: u64, x: &BranchIndex<TT>, res: &mut [bool]) {
        self.log.lock().unwrap().push((o, X::of(&x.clone().into())));
        self.q.intersecting(o, x, res)
    }
}

fn walk(n: &Node, q: &DQ, rev: bool, out: &mut Vec<(u64, X)>) {
    out.push((n.offset, X::of(&n.index)));
    if let Index::Branch(b) = &n.index {
        if b.link.is_none() {
            return;
        }
        let mut mask = vec![true; n.children.len()];
        q.intersecting(n.offset, b, &mut mask);
        let mut cs: Vec<_> = n.children.iter().zip(mask).collect();
        if rev {
            cs.reverse();
        }
        for (c, m) in cs {
            if m {
                walk(c, q, rev, out);
            }
        }
    }
}

/// nothing is visited below children that cannot match
fn precise(n: &Node, q: &Q, visited: &[(u64, X)]) -> R<()> {
    if let Index::Branch(b) = &n.index {
        for (c, m) in n.children.iter().zip(q.may(n.offset, b)) {
            if m {
                precise(c, q, visited)?;
            } else {
                let x = X::of(&c.index);
                crate::ck!(
                    !visited.iter().any(|v| v.0 == c.offset && v.1 == x),
                    "query {:?}: not pruned at {}: {:?}",
                    q,
                    c.offset,
                    x
                );
            }
        }
    }
    Ok(())
}

pub fn check06(h: &Hist, rich: bool) -> R<u64> {
    let w = World::run(h)?;
    let t = w.tree();
    let cold = w.cold(0);
    let Some(i) = w.b.index() else {
        crate::ck!(
            w.forest().iter_index(&t, Q::All.compile()).next().is_none(),
            "empty tree"
        );
        return Ok(1);
    };
    let root = load(&cold, i, 0)?;
    let mut total = 0;
    root.visit(&mut |_| total += 1);
    let mut nq = 0;
    for (i, q) in pool(&w, rich).iter().enumerate() {
        let f = if i % 2 == 0 { w.forest() } else { &cold };
        for rev in [false, true] {
            let log = Arc::new(Mutex::new(vec![]));
            let rec = Rec {
                q: q.compile(),
                log: log.clone(),
            };
            let got = if rev {
                drain(f.iter_index_reverse(&t, rec), total + 5)
            } else {
                drain(f.iter_index(&t, rec), total + 5)
            }
            .map_err(|e| format!("query {:?} rev={}: {}", q, rev, e))?;
            let got: Vec<X> = got.iter().map(X::of).collect();
            let mut want = vec![];
            walk(&root, &q.compile(), rev, &mut want);
            let wantx: Vec<X> = want.iter().map(|x| x.1.clone()).collect();
            diff(&format!("query {:?} rev={}", q, rev), &got, &wantx)?;
            if !rev {
                precise(&root, q, &want)?;
            }
            // offsets the query was asked about are true ones
            for (o, x) in log.lock().unwrap().iter() {
                crate::ck!(
                    want.iter().any(|(o1, x1)| o1 == o && x1 == x),
                    "query {:?} rev={}: asked about offset {} for {:?}",
                    q,
                    rev,
                    o,
                    x
                );
            }
            nq += 1;
        }
        // soundness: every leaf with a readable match is visited
        let mut vis = vec![];
        walk(&root, &q.compile(), false, &mut vis);
        for (o, _, _) in crate::p04::want(q, &w.model) {
            crate::ck!(
                vis.iter()
                    .any(|(s, x)| x.leaf && *s <= o && o < s + x.count),
                "query {:?}: matching offset {} pruned",
                q,
                o
            );
        }
    }
    Ok(nq)
}

#[derive(serde::Serialize, serde::Deserialize)]
pub struct RC {
    #[serde(flatten)]
    pub h: Hist,
    pub rich: bool,
}

fn rc(v: &Value) -> R<RC> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}
pub fn replay04(v: &Value) -> R<()> {
    let c = rc(v)?;
    check04(&c.h, c.rich).map(|_| ())
}
pub fn replay05(v: &Value) -> R<()> {
    let c = rc(v)?;
    check05(&c.h, c.rich).map(|_| ())
}
pub fn replay06(v: &Value) -> R<()> {
    let c = rc(v)?;
    check06(&c.h, c.rich).map(|_| ())
}

/// trees with every mixture of packed, unpacked, forgotten and lost parts
pub fn trees(ctx: &Ctx, level: usize) -> Vec<Hist> {
    let mut out = vec![];
    let cfgs = [
        (2, 2, 2, 0, 0),
        (1, 2, 2, 2, 1),
        (3, 2, 3, 1, 3),
        (2, 3, 2, 4, 2),
        (1, 1, 2, 3, 0),
    ];
    for (i, (l, k, s, kp, vp)) in cfgs.iter().enumerate() {
        let sc = Sc::new(Cfg::new(*l, *k, *s)).kp(*kp).vp(*vp);
        let mut a = crate::p01::alphabet(&[1, 3, 4, 7], &[1, 2, 4]);
        a.push(Op::F(Q::Std(2, 3, 0)));
        a.push(Op::F(Q::Std(0, 2, 5)));
        a.push(Op::F(Q::Key(0, 1)));
        a.push(Op::F(Q::Empty));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(if i < 2 { 4 } else { 3 }, 4) + level,
            max_count: ctx.pick(12, 16),
        };
        // trees with lost parts can not be continued in general, so this is a last step
        let reps = catalogue(ctx, sc, &p);
        let mut lossy = vec![];
        for h in reps.iter() {
            if h.ops.len() < p.depth {
                for z in 0..ctx.pick(2, 5) {
                    lossy.push(h.with(Op::Z(z)));
                }
            }
        }
        let mut seen = BTreeSet::new();
        let c = ctx.par(&lossy, |h| World::run(h)?.canon());
        out.extend(reps);
        for (h, c) in lossy.into_iter().zip(c) {
            if let Some(c) = c {
                if seen.insert(c) {
                    out.push(h);
                }
            }
        }
        ctx.note(format!(
            "trees of cfg {:?}: depth <= {} over {} ops (+ one lost block), <= {} elements",
            cfgs[i],
            p.depth,
            p.alphabet.len(),
            p.max_count
        ));
    }
    out
}

/// trees that stretch one dimension: wide, deep, long leaves
pub fn stretched(ctx: &Ctx) -> Vec<Hist> {
    let mut v = vec![];
    let wide = Sc::new(Cfg::new(3, 70, 70)).kp(4);
    v.push(Hist {
        sc: wide,
        ops: vec![Op::E(220)],
    });
    v.push(Hist {
        sc: wide,
        ops: vec![Op::E(205), Op::F(Q::Std(2, 190, 0))],
    });
    v.push(Hist {
        sc: Sc::new(Cfg::new(1, 66, 80)),
        ops: vec![Op::E(66 * 3), Op::U(2), Op::F(Q::Key(60, 140))],
    });
    let long = Sc::new(Cfg::new(80, 2, 2)).kp(1);
    v.push(Hist {
        sc: long,
        ops: vec![Op::E(200)],
    });
    v.push(Hist {
        sc: long,
        ops: vec![Op::E(161), Op::F(Q::Std(0, 90, 91)), Op::U(33)],
    });
    let deep = Sc::new(Cfg::new(1, 1, 2));
    v.push(Hist {
        sc: deep,
        ops: vec![Op::E(130)],
    });
    v.push(Hist {
        sc: Sc::new(Cfg::new(2, 2, 2)),
        ops: (0..ctx.pick(60, 150)).map(|i| Op::U(1 + i % 3)).collect(),
    });
    let mut mixed: Vec<Op> = (0..20).map(|_| Op::U(2)).collect();
    mixed.push(Op::P);
    mixed.extend((0..20).map(|_| Op::U(1)));
    mixed.push(Op::F(Q::Std(2, 37, 0)));
    v.push(Hist {
        sc: Sc::new(Cfg::new(2, 2, 2)).kp(2),
        ops: mixed,
    });
    v
}

pub fn run_reads(ctx: &Ctx, f: fn(&Hist, bool) -> R<u64>) -> (&'static str, Value) {
    let ts = trees(ctx, 0);
    let mut cases: Vec<RC> = ts
        .into_iter()
        .enumerate()
        .map(|(i, h)| RC {
            h,
            rich: ctx.tier == Tier::Thorough || i % 16 == 0,
        })
        .collect();
    cases.extend(stretched(ctx).into_iter().map(|h| RC {
        h,
        rich: ctx.tier == Tier::Thorough,
    }));
    cases.extend(crate::shapes::trees(ctx, ctx.pick(2, 3), true).into_iter().map(|h| RC { h, rich: false }));
    let t = std::sync::Mutex::new(std::collections::BTreeMap::<String, (u32, f64)>::new());
    let r = ctx.par(&cases, |c| {
        let t0 = std::time::Instant::now();
        let r = f(&c.h, c.rich);
        if std::env::var("MC_TIME").is_ok() {
            let mut m = t.lock().unwrap();
            let e = m.entry(format!("{:?}", c.h.sc)).or_default();
            e.0 += 1;
            e.1 += t0.elapsed().as_secs_f64();
        }
        r
    });
    if std::env::var("MC_TIME").is_ok() {
        for (k, v) in t.lock().unwrap().iter() {
            eprintln!("{} {:?}", k, v);
        }
    }
    let n: u64 = r.iter().flatten().sum();
    ctx.count("trees", cases.len() as u64);
    ctx.count("tree-query pairs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ("model_checking", Value::Null)
}
pub fn explore04(ctx: &Ctx) -> (&'static str, Value) {
    run_reads(ctx, check04)
}
pub fn explore05(ctx: &Ctx) -> (&'static str, Value) {
    run_reads(ctx, check05)
}
pub fn explore06(ctx: &Ctx) -> (&'static str, Value) {
    run_reads(ctx, check06)
}
