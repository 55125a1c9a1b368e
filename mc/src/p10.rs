//! P10 read faults, P11 write faults
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::p04::extra;
use crate::q::*;
use crate::store::*;
use crate::types::*;
use banyan::store::BranchCache;
use banyan::Forest;
use futures::executor::block_on;
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

/// observed result of a read: items, then possibly an error
#[derive(Debug, PartialEq, Clone)]
pub struct Obs {
    pub items: Vec<String>,
    pub err: bool,
    /// anything after the error
    pub tail: usize,
}

fn obs<T>(it: impl Iterator<Item = anyhow::Result<T>>, f: impl Fn(T) -> String) -> Obs {
    let mut o = Obs {
        items: vec![],
        err: false,
        tail: 0,
    };
    let mut it = it;
    for _ in 0..5000 {
        match it.next() {
            None => break,
            Some(r) if o.err => {
                let _ = r;
                o.tail += 1;
                if o.tail > 3 {
                    break;
                }
            }
            Some(Ok(x)) => o.items.push(f(x)),
            Some(Err(_)) => o.err = true,
        }
    }
    o
}
fn once<T>(r: anyhow::Result<T>, f: impl Fn(T) -> String) -> Obs {
    obs(std::iter::once(r), f)
}
fn obs_stream<T>(
    s: impl futures::Stream<Item = anyhow::Result<T>>,
    f: impl Fn(T) -> String,
) -> Obs {
    let v: Vec<_> = block_on(s.take(5000).collect::<Vec<_>>());
    obs(v.into_iter(), f)
}

pub const NREADS: usize = 26;

/// one read operation on one tree
pub fn read_op(op: usize, f: &F, t: &Tr, b: &SBd) -> Obs {
    let n = t.count();
    let q = |k: usize| -> DQ {
        match k {
            0 => Q::All,
            1 => Q::Std(0, 1, n.saturating_sub(1)),
            _ => Q::Key(1, 2),
        }
        .compile()
    };
    let ch = |c: crate::p04::Ch| format!("{:?} {:?} {:?}", c.range, c.data, c.extra);
    let d = |x: (u64, K, Val)| format!("{:?}", x);
    match op {
        0 => once(f.collect(t), |v| format!("{:?}", v)),
        1 => once(f.collect_from(t, n / 2), |v| format!("{:?}", v)),
        2 => once(f.get(t, 0), |v| format!("{:?}", v)),
        3 => once(f.get(t, n / 2), |v| format!("{:?}", v)),
        4 => once(f.get(t, n.saturating_sub(1)), |v| format!("{:?}", v)),
        5 => obs(f.iter_from(t), d),
        6..=8 => obs(f.iter_filtered(t, q(op - 6)), d),
        9..=10 => obs(f.iter_filtered_reverse(t, q(op - 9)), d),
        11..=12 => obs(f.iter_index(t, q(op - 11)), |i| {
            format!("{:?}", crate::p04::X::of(&i))
        }),
        13..=14 => obs(f.iter_index_reverse(t, q(op - 13)), |i| {
            format!("{:?}", crate::p04::X::of(&i))
        }),
        15 => obs(f.iter_filtered_chunked(t, q(1), &extra), ch),
        16 => obs(f.iter_filtered_chunked_reverse(t, q(0), &extra), ch),
        17 => obs_stream(f.stream_filtered(t, q(0)), d),
        18 => obs_stream(f.stream_filtered_chunked(t, q(2), &extra), ch),
        19 => obs_stream(f.stream_filtered_chunked_reverse(t, q(0), &extra), ch),
        20 => once(f.is_packed(t), |v| format!("{}", v)),
        21 => once(f.roots(b), |v| {
            format!("{:?}", v.iter().map(crate::p04::X::of).collect::<Vec<_>>())
        }),
        22 => once(f.left_roots(t), |v| {
            format!(
                "{:?}",
                v.iter()
                    .map(|t| (t.count(), t.level(), t.link()))
                    .collect::<Vec<_>>()
            )
        }),
        23 => once(f.check_invariants(b), |v| format!("{:?}", v)),
        24 => once(
            f.dump_graph(t, |(id, n)| format!("{} {:?}", id, extra(n))),
            |g| format!("{:?}", g),
        ),
        _ => match t.link() {
            None => Obs {
                items: vec![],
                err: false,
                tail: 0,
            },
            Some(l) => once(f.load_tree::<Val>(secrets(), l), |t| {
                format!("{} {} {:?}", t.count(), t.level(), t.link())
            }),
        },
    }
}

pub fn judge(op: usize, got: &Obs, want: &Obs, faulty: bool) -> R<()> {
    crate::ck!(
        got.tail == 0,
        "op {}: {} items after the error",
        op,
        got.tail
    );
    if got.err {
        crate::ck!(faulty, "op {}: error without a fault", op);
        crate::ck!(
            got.items.len() <= want.items.len() && got.items[..] == want.items[..got.items.len()],
            "op {}: delivered {:?} before the error, not a prefix of {:?}",
            op,
            got.items,
            want.items
        );
    } else {
        crate::ck!(got == want, "op {}: got {:?} want {:?}", op, got, want);
    }
    Ok(())
}

fn check10(h: &Hist) -> R<u64> {
    let w = World::run(h)?;
    let t = w.tree();
    let mut n = 0;
    for op in 0..NREADS {
        if op == 24 && t.is_empty() {
            // dump_graph refuses an empty tree by design
            continue;
        }
        let want = read_op(op, &w.cold(0), &t, &w.b);
        crate::ck!(!want.err, "op {}: error without a fault", op);
        for cap in [0usize, 1 << 20] {
            for warm in [false, true] {
                if cap == 0 && warm {
                    continue;
                }
                // mode 0: only the k-th access fails, 1: all from the k-th
                for mode in 0..2 {
                    let mut k = 0;
                    loop {
                        let f = w.cold(cap);
                        w.store.disarm();
                        if warm {
                            let _ = f.iter_index(&t, Q::All.compile()).count();
                        }
                        w.store.arm(|s| {
                            if mode == 0 {
                                s.fail_gets.insert(k);
                            } else {
                                s.fail_gets_from = Some(k);
                            }
                        });
                        let got = guard(|| Ok(read_op(op, &f, &t, &w.b)))
                            .map_err(|e| format!("op {} fault {} mode {}: {}", op, k, mode, e))?;
                        let hit = w.store.with(|s| s.faults_hit) > 0;
                        judge(op, &got, &want, hit).map_err(|e| {
                            format!(
                                "fault at access {} (mode {}, cache {}, warm {}): {}",
                                k, mode, cap, warm, e
                            )
                        })?;
                        // once the store works again, everything is as it should be
                        w.store.disarm();
                        let again = read_op(op, &f, &t, &w.b);
                        crate::ck!(again == want, "after fault at access {} (mode {}, cache {}, warm {}): op {} gives {:?} want {:?}", k, mode, cap, warm, op, again, want);
                        n += 1;
                        if !hit {
                            break;
                        }
                        k += 1;
                    }
                }
            }
        }
    }
    Ok(n)
}
pub fn replay10(v: &Value) -> R<()> {
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check10(&h).map(|_| ())
}
pub fn explore10(ctx: &Ctx) -> (&'static str, Value) {
    let mut cases = vec![];
    for (l, k, s, kp) in [(2, 2, 2, 0), (1, 2, 2, 2), (3, 2, 3, 1), (1, 1, 2, 0)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let mut a = crate::p01::alphabet(&[1, 3, 6], &[1, 3]);
        a.push(Op::F(Q::Std(2, 3, 0)));
        a.push(Op::F(Q::Key(1, 1)));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(3, 4),
            max_count: ctx.pick(8, 14),
        };
        let reps = catalogue(ctx, sc, &p);
        for (i, h) in reps.into_iter().enumerate() {
            if i % 3 == 0 {
                cases.push(h.with(Op::Z(i as u32)));
            }
            cases.push(h);
        }
    }
    ctx.note("for every tree: 26 read operations x every position of a failing block access (only that one / all from there) x caches {off, cold, warm}; then the same operation again without faults".to_string());
    let r = ctx.par(&cases, check10);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("trees", cases.len() as u64);
    ctx.count("faulty runs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    (
        "fault_enumeration",
        serde_json::json!({"evaluations": n, "distinct_nontrivial": n.saturating_sub((cases.len() * NREADS * 6) as u64),
      "rule": "a case is (tree shape, read operation, cache state, failing access index, single/persistent); non-trivial when the fault is actually hit, i.e. all but the last index of each enumeration"}),
    )
}

// ---------------------------------------------------------------------- P11 / P14 helpers

/// no two different offered blocks share a byte of keystream under the same key
pub fn ranges(s: &LogStore, same_key: bool) -> R<()> {
    let mut v: Vec<(u64, u64, bool, Sha)> = vec![];
    let mut seen = BTreeSet::new();
    for (l, b) in s.with(|i| i.offered.clone()) {
        if !seen.insert(l) {
            continue;
        }
        let r = decode::raw(&b)?;
        let is_index = if same_key {
            false
        } else {
            decode::plain(&b, &IK)
                .ok()
                .and_then(|(_, p)| decode::parse_all(&p).ok())
                .map(|x| !x.is_empty())
                .unwrap_or(false)
        };
        crate::ck!(
            r.offset.checked_add(r.payload.len() as u64).is_some(),
            "range wraps around"
        );
        v.push((r.offset, r.offset + r.payload.len() as u64, is_index, l));
    }
    v.sort();
    for k in [false, true] {
        let mut end = 0;
        let mut who = None;
        for (a, b, _, l) in v.iter().filter(|x| x.2 == k) {
            crate::ck!(
                *a >= end,
                "block {} uses cipher range {}..{} which overlaps the one of {:?} ending at {}",
                l,
                a,
                b,
                who,
                end
            );
            if *b > end {
                end = *b;
                who = Some(*l);
            }
        }
    }
    Ok(())
}

#[derive(Serialize, Deserialize, Clone)]
pub struct C11 {
    #[serde(flatten)]
    h: Hist,
    op: Op,
}

/// op as on the World, plus Z(_) meaning repair
fn do_op(w: &mut World, op: &Op) -> R<()> {
    match op {
        Op::Z(_) => w.txn.repair(&mut w.b).map(|_| ()).map_err(es),
        Op::F(q) => w.txn.retain(&mut w.b, &q.compile()).map_err(es),
        _ => w.apply(op),
    }
}
/// after a retain or repair: what is really gone is read off the tree
fn settle(w: &mut World, op: &Op) -> R<()> {
    if matches!(op, Op::Z(_) | Op::F(_)) {
        let there = presence(&w.cold(0), w.b.index())?;
        crate::ck!(there.len() == w.model.len(), "{:?} changed the count", op);
        for (e, t) in w.model.iter_mut().zip(there) {
            e.there = t;
        }
    }
    Ok(())
}

fn fresh(c: &C11) -> R<World> {
    let mut sc = c.h.sc;
    sc.cache = 0;
    World::run(&Hist {
        sc,
        ops: c.h.ops.clone(),
    })
}

fn check11(c: &C11) -> R<u64> {
    // what the operation does without faults
    let mut w = fresh(c)?;
    let ok = do_op(&mut w, &c.op);
    settle(&mut w, &c.op)?;
    let want_model = w.model.clone();
    let want_shape = w.canon()?;
    let mut n = 0;
    // 0/1: one / all puts from k; 2/3: one / all gets from k
    for mode in 0..4 {
        if matches!(c.op, Op::Z(_)) && mode >= 2 {
            // a block that can not be read is what repair repairs
            continue;
        }
        let mut k = 0;
        loop {
            let mut w = fresh(c)?;
            let m0 = w.model.clone();
            let i0 = w.b.index().map(crate::p04::X::of);
            let s0 = w.canon()?;
            w.store.arm(|s| match mode {
                0 => {
                    s.fail_puts.insert(k);
                }
                1 => s.fail_puts_from = Some(k),
                2 => {
                    s.fail_gets.insert(k);
                }
                _ => s.fail_gets_from = Some(k),
            });
            let at = format!(
                "{} fault at access {}",
                ["put", "permanent put", "get", "permanent get"][mode],
                k
            );
            let next0 = w.next;
            let r = do_op(&mut w, &c.op);
            let hit = w.store.with(|s| s.faults_hit) > 0;
            w.store.disarm();
            if !hit {
                crate::ck!(
                    r.is_ok() == ok.is_ok(),
                    "without fault: {:?} vs {:?}",
                    r,
                    ok
                );
                break;
            }
            n += 1;
            let e = match r {
                Ok(()) => return Err(format!("{}: operation reported success", at)),
                Err(e) => e,
            };
            crate::ck!(!e.contains("panicked"), "{}: {}", at, e);
            w.model = m0.clone();
            crate::ck!(
                w.b.index().map(crate::p04::X::of) == i0,
                "{}: root changed from {:?} to {:?}",
                at,
                i0,
                w.b.index().map(crate::p04::X::of)
            );
            crate::ck!(
                w.canon()?.split_once('/').map(|x| x.1.to_string())
                    == s0.split_once('/').map(|x| x.1.to_string()),
                "{}: tree changed",
                at
            );
            crate::reads::content_quick(w.forest(), &w.tree(), &w.model)
                .map_err(|e| format!("{}: {}", at, e))?;
            crate::ck!(w.b.count() == m0.len() as u64, "{}: count", at);
            // retry
            w.next = next0;
            let r = do_op(&mut w, &c.op);
            settle(&mut w, &c.op)?;
            crate::ck!(
                r.is_ok() == ok.is_ok(),
                "{}: retry gives {:?}, without fault {:?}",
                at,
                r,
                ok
            );
            if r.is_ok() {
                crate::ck!(w.model == want_model, "{}: model after retry", at);
                crate::ck!(
                    w.canon()?.split_once('/').map(|x| x.1.to_string())
                        == want_shape.split_once('/').map(|x| x.1.to_string()),
                    "{}: shape after retry {} want {}",
                    at,
                    w.canon()?,
                    want_shape
                );
            } else {
                w.model = m0;
            }
            crate::reads::content_quick(&w.cold(0), &w.tree(), &w.model)
                .map_err(|e| format!("{}, after retry: {}", at, e))?;
            // go on working with the same builder
            w.apply(&Op::U(1))
                .map_err(|e| format!("{}, later append: {}", at, e))?;
            crate::reads::content_quick(&w.cold(0), &w.tree(), &w.model)
                .map_err(|e| format!("{}, later: {}", at, e))?;
            ranges(&w.store, false).map_err(|e| format!("{}: {}", at, e))?;
            k += 1;
        }
    }
    Ok(n)
}
pub fn replay11(v: &Value) -> R<()> {
    let c: C11 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check11(&c).map(|_| ())
}
pub fn explore11(ctx: &Ctx) -> (&'static str, Value) {
    let mut cases = vec![];
    for (l, k, s, kp) in [(2, 2, 2, 0), (1, 2, 2, 2), (3, 2, 3, 1), (1, 1, 2, 0)] {
        let sc = Sc::new(Cfg::new(l, k, s)).kp(kp);
        let mut a = crate::p01::alphabet(&[1, 3, 6], &[1, 3]);
        a.push(Op::F(Q::Std(2, 3, 0)));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(3, 4),
            max_count: ctx.pick(10, 14),
        };
        let reps = catalogue(ctx, sc, &p);
        for (i, h) in reps.into_iter().enumerate() {
            let mut ops = vec![
                Op::E(1),
                Op::E(5),
                Op::E(9),
                Op::N(1),
                Op::U(2),
                Op::U(7),
                Op::P,
                Op::F(Q::Std(2, 5, 0)),
                Op::F(Q::Key(1, 1)),
                Op::Cm(vec![Op::E(3)]),
                Op::R,
            ];
            if i % 2 == 0 {
                let mut lossy = h.clone();
                lossy.ops.push(Op::Z(i as u32 / 2));
                let last = World::run(&lossy).is_ok();
                if last {
                    // repair needs something to repair: done below by losing a block first
                }
                ops.push(Op::Z(0));
            }
            for op in ops {
                cases.push(C11 { h: h.clone(), op });
            }
        }
    }
    // repairs that really write
    let mut lossy = vec![];
    for c in cases.iter().filter(|c| matches!(c.op, Op::Z(_))) {
        for z in 0..3 {
            lossy.push(CL { h: c.h.clone(), z });
        }
    }
    ctx.note("for every tree x operation: every position of a failing put/get (single / permanent), then the unchanged builder, the retry and one more append are checked".to_string());
    let r = ctx.par(&cases, check11);
    let r2 = ctx.par(&lossy, check11r);
    let n: u64 = r.iter().flatten().sum::<u64>() + r2.iter().flatten().sum::<u64>();
    ctx.count(
        "tree-operation pairs",
        cases.len() as u64 + lossy.len() as u64,
    );
    ctx.count("faulty runs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    (
        "fault_enumeration",
        serde_json::json!({"evaluations": n, "distinct_nontrivial": n,
      "rule": "a case is (tree shape, operation, failing access index, put/get, single/permanent) in which the fault was hit"}),
    )
}

#[derive(Serialize, Deserialize, Clone)]
struct CL {
    #[serde(flatten)]
    h: Hist,
    z: u32,
}

/// failing puts during a repair that has something to do
fn check11r(c: &CL) -> R<u64> {
    let mut k = 0;
    let mut n = 0;
    loop {
        let mut sc = c.h.sc;
        sc.cache = 0;
        let mut w = World::run(&Hist {
            sc,
            ops: c.h.ops.clone(),
        })?;
        let Some(i) = w.b.index().cloned() else {
            return Ok(0);
        };
        let links = crate::p08::links_of(&load(&w.cold(0), &i, 0)?);
        if links.len() < 3 {
            return Ok(0);
        }
        let victim = links[1 + c.z as usize * (links.len() - 1) / 3];
        w.store.arm(|s| {
            s.missing.insert(victim);
            s.fail_puts.insert(k);
        });
        let before = w.b.index().map(crate::p04::X::of);
        let r = w.txn.repair(&mut w.b);
        let hit = w
            .store
            .with(|s| s.log.len() as u64 + s.puts > 0 && s.puts > k);
        if hit {
            crate::ck!(r.is_err(), "put fault {} during repair not reported", k);
            crate::ck!(
                w.b.index().map(crate::p04::X::of) == before,
                "put fault {} during repair: root changed",
                k
            );
            w.store.arm(|s| {
                s.missing.insert(victim);
            });
            let rep = w
                .txn
                .repair(&mut w.b)
                .map_err(|e| format!("retry of repair after put fault {}: {}", k, es(e)))?;
            crate::ck!(!rep.is_empty(), "retry reports nothing");
        } else {
            r.map_err(|e| format!("repair: {}", es(e)))?;
        }
        let f = Forest::new(w.store.clone(), BranchCache::new(0));
        let there = presence(&f, w.b.index())?;
        for (e, t) in w.model.iter_mut().zip(there) {
            e.there = t;
        }
        crate::reads::content_quick(&f, &w.tree(), &w.model)?;
        ranges(&w.store, false)?;
        if !hit {
            return Ok(n);
        }
        n += 1;
        k += 1;
    }
}
