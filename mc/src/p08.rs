//! P08 forget, P09 repair
use crate::engine::*;
use crate::hist::*;
use crate::p04::pool;
use crate::q::*;
use crate::reads::*;
use crate::types::*;
use banyan::index::Index;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::SeqCst;

/// links of sealed leaves in the packed part: below the maximal sealed subtrees of descending level
fn packed_leaves(n: &Node, level: &mut i64, out: &mut Vec<(std::ops::Range<u64>, Sha)>) {
    if n.index.sealed() && (n.index.level() as i64) <= *level {
        *level = n.index.level() as i64;
        n.visit(&mut |x| {
            if let (Index::Leaf(_), Some(l)) = (&x.index, x.index.link()) {
                out.push((x.range(), *l))
            }
        });
    } else {
        *level = (*level).min(n.index.level() as i64 - 1);
        for c in &n.children {
            packed_leaves(c, level, out);
        }
    }
}

fn leaves(n: &Node) -> Vec<(std::ops::Range<u64>, Option<Sha>, bool)> {
    let mut v = vec![];
    n.visit(&mut |x| {
        if let Index::Leaf(l) = &x.index {
            v.push((x.range(), l.link, l.sealed))
        }
    });
    v
}

pub fn links_of(n: &Node) -> Vec<Sha> {
    let mut v = vec![];
    n.visit(&mut |x| v.extend(x.index.link().iter().copied()));
    v
}

#[derive(Serialize, Deserialize)]
pub struct C8 {
    #[serde(flatten)]
    h: Hist,
    rich: bool,
}

fn one08(h: &Hist, q: &Q) -> R<()> {
    let mut w = World::run(h)?;
    let packed = w.forest().is_packed(&w.tree()).map_err(es)?;
    let before = match w.b.index() {
        Some(i) => Some(load(&w.cold(0), i, 0)?),
        None => None,
    };
    let old = w.model.clone();
    w.apply(&Op::F(q.clone()))?;
    crate::ck!(w.b.count() == old.len() as u64, "count changed");
    let Some(before) = before else {
        crate::ck!(
            w.b.index().is_none(),
            "forgetting from an empty stream created something"
        );
        return Ok(());
    };
    let after = load(&w.cold(0), w.b.index().ok_or("emptied")?, 0)?;
    // what may be gone
    let ls = leaves(&before);
    for (i, (e0, e1)) in old.iter().zip(&w.model).enumerate() {
        let i = i as u64;
        crate::ck!(!(e1.there && !e0.there), "offset {} came back", i);
        if e0.there && !e1.there {
            crate::ck!(!q.matches(i, &e0.k), "matching entry at offset {} lost", i);
            let l = ls.iter().find(|l| l.0.contains(&i)).ok_or("no leaf")?;
            crate::ck!(l.2, "entry {} of an unsealed leaf lost", i);
        }
    }
    // what must be gone
    let mut level = i64::MAX;
    let mut pl = vec![];
    packed_leaves(&before, &mut level, &mut pl);
    let reach: BTreeSet<Sha> = links_of(&after).into_iter().collect();
    for (r, l) in &pl {
        let m = r.clone().any(|o| q.matches(o, &old[o as usize].k));
        if !m {
            crate::ck!(
                !reach.contains(l),
                "sealed leaf {:?} without matching entry still reachable",
                r
            );
        }
    }
    if packed {
        for (r, l, sealed) in &ls {
            if let (true, Some(l)) = (*sealed, l) {
                let m = r.clone().any(|o| q.matches(o, &old[o as usize].k));
                crate::ck!(
                    m || !reach.contains(l),
                    "packed tree: sealed leaf {:?} without matching entry still reachable",
                    r
                );
            }
        }
    }
    content(w.forest(), &w.tree(), &w.model)?;
    let link = w.b.link();
    if let Some(l) = link {
        let f = w.cold(0);
        let t: Tr = f.load_tree(secrets(), l).map_err(es)?;
        content(&f, &t, &w.model).map_err(|e| format!("reloaded: {}", e))?;
    }
    // idempotent
    let m1 = w.model.clone();
    w.apply(&Op::F(q.clone()))?;
    crate::ck!(
        w.model == m1 && w.b.link() == link,
        "forgetting twice is not the same as once"
    );
    // still usable
    if packed {
        crate::ck!(
            w.forest().is_packed(&w.tree()).map_err(es)?,
            "not packed any more"
        );
        for op in [Op::N(1), Op::E(4), Op::R, Op::N(2), Op::E(3), Op::U(2)] {
            w.apply(&op).map_err(|e| format!("then {:?}: {}", op, e))?;
            content_quick(w.forest(), &w.tree(), &w.model)
                .map_err(|e| format!("then {:?}: {}", op, e))?;
        }
    } else {
        w.apply(&Op::P).map_err(|e| format!("then pack: {}", e))?;
        content_quick(w.forest(), &w.tree(), &w.model).map_err(|e| format!("then pack: {}", e))?;
        w.apply(&Op::U(2))?;
        content_quick(w.forest(), &w.tree(), &w.model)
            .map_err(|e| format!("then unpacked append: {}", e))?;
    }
    Ok(())
}

fn check08(c: &C8) -> R<u64> {
    let w = World::run(&c.h)?;
    let mut n = 0;
    for q in pool(&w, c.rich) {
        guard(|| one08(&c.h, &q)).map_err(|e| format!("retain {:?}: {}", q, e))?;
        n += 1;
    }
    Ok(n)
}
pub fn replay08(v: &Value) -> R<()> {
    let c: C8 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check08(&c).map(|_| ())
}
pub fn explore08(ctx: &Ctx) -> (&'static str, Value) {
    let mut cases = vec![];
    let cfgs = [
        (2, 2, 2, 0, 0),
        (1, 2, 2, 2, 1),
        (3, 2, 3, 1, 3),
        (1, 1, 2, 0, 0),
        (1, 2, 3, 4, 0),
    ];
    for (i, (l, k, s, kp, vp)) in cfgs.iter().enumerate() {
        let sc = Sc::new(Cfg::new(*l, *k, *s)).kp(*kp).vp(*vp);
        let mut a = crate::p01::alphabet(&[1, 4, 7], &[1, 3, 4]);
        a.push(Op::F(Q::Std(2, 5, 0)));
        a.push(Op::F(Q::Key(0, 1)));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(if i < 3 { 3 } else { 2 }, 4),
            max_count: ctx.pick(12, 16),
        };
        let reps = catalogue(ctx, sc, &p);
        ctx.note(format!(
            "cfg {:?}: {} trees (depth <= {}, <= {} elements) x all queries of the pool",
            cfgs[i],
            reps.len(),
            p.depth,
            p.max_count
        ));
        for (j, h) in reps.into_iter().enumerate() {
            cases.push(C8 {
                h,
                rich: ctx.tier == Tier::Thorough && j % 4 == 0,
            });
        }
    }
    // three and more sealed levels
    for n in [14, 17, 24] {
        for kp in [0, 4] {
            cases.push(C8 {
                h: Hist {
                    sc: Sc::new(Cfg::new(1, 2, 2)).kp(kp),
                    ops: vec![Op::E(n)],
                },
                rich: false,
            });
            cases.push(C8 {
                h: Hist {
                    sc: Sc::new(Cfg::new(1, 2, 2)).kp(kp),
                    ops: vec![Op::E(n), Op::F(Q::Std(2, n as u64 / 2, 0))],
                },
                rich: false,
            });
        }
    }
    cases.extend(crate::shapes::trees(ctx, ctx.pick(1, 2), false).into_iter().map(|h| C8 { h, rich: false }));
    let r = ctx.par(&cases, check08);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("tree-query pairs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    ("model_checking", Value::Null)
}

// ------------------------------------------------------------------- P09

#[derive(Serialize, Deserialize)]
pub struct C9 {
    #[serde(flatten)]
    h: Hist,
    /// subsets up to this size (0: all subsets)
    size: u32,
    cap: usize,
}

fn subsets(n: usize, size: u32) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if size == 0 {
        for m in 0u32..(1 << n) {
            v.push((0..n).filter(|i| m >> i & 1 == 1).collect());
        }
    } else {
        v.push(vec![]);
        for i in 0..n {
            v.push(vec![i]);
            if size >= 2 {
                for j in i + 1..n {
                    v.push(vec![i, j]);
                    if size >= 3 {
                        for k in j + 1..n {
                            v.push(vec![i, j, k]);
                        }
                    }
                }
            }
        }
        v.push((0..n).collect());
    }
    v
}

fn expect(n: &Node, missing: &BTreeSet<Sha>, there: &mut Vec<bool>, lost: &mut Vec<Sha>) {
    match n.index.link() {
        Some(l) if missing.contains(l) => {
            lost.push(*l);
            there.extend((0..n.index.count()).map(|_| false))
        }
        None => there.extend((0..n.index.count()).map(|_| false)),
        Some(_) => {
            if let Index::Leaf(_) = n.index {
                there.extend((0..n.index.count()).map(|_| true))
            } else {
                for c in &n.children {
                    expect(c, missing, there, lost)
                }
            }
        }
    }
}

fn mentions(report: &[String], l: &Sha) -> usize {
    let t = l.to_string();
    report.iter().filter(|x| x.contains(&t)).count()
}

fn one09(c: &C9, pick: &[usize], corrupt: bool) -> R<()> {
    let mut sc = c.h.sc;
    sc.cache = c.cap;
    let mut w = World::run(&Hist {
        sc,
        ops: c.h.ops.clone(),
    })?;
    let Some(i) = w.b.index().cloned() else {
        crate::ck!(
            w.txn.repair(&mut w.b).map_err(es)?.is_empty(),
            "report for an empty stream"
        );
        return Ok(());
    };
    let root = load(&w.cold(0), &i, 0)?;
    let links = links_of(&root);
    // warm the cache
    content_quick(w.forest(), &w.tree(), &w.model)?;
    let missing: BTreeSet<Sha> = pick.iter().map(|i| links[*i]).collect();
    w.store.arm(|s| {
        if corrupt {
            for (n, l) in missing.iter().enumerate() {
                // unreadable in different ways
                let b = s.blocks[l].clone();
                let r: Vec<u8> = match n % 3 {
                    0 => vec![],
                    1 => b[..b.len() / 2].to_vec(),
                    _ => b"\x83\x01\x80".to_vec(),
                };
                s.replaced.insert(*l, r.into());
            }
        } else {
            s.missing = missing.clone()
        }
    });
    let mut there = vec![];
    let mut lost = vec![];
    expect(&root, &missing, &mut there, &mut lost);
    let count = w.b.count();
    let link = w.b.link();
    let root_lost = w.b.link().map(|l| missing.contains(&l)).unwrap_or(false);
    let report = w
        .txn
        .repair(&mut w.b)
        .map_err(|e| format!("repair failed: {}", es(e)))?;
    for l in &links {
        let want = lost.contains(l) as usize;
        let got = mentions(&report, l);
        crate::ck!(
            want == got,
            "block {} reported {} times, expected {}: {:?}",
            l,
            got,
            want,
            report
        );
    }
    crate::ck!(w.b.count() == count, "count changed");
    if lost.is_empty() {
        crate::ck!(
            report.is_empty() && w.b.link() == link,
            "repair of an intact tree changed it or reported {:?}",
            report
        );
    }
    for (e, t) in w.model.iter_mut().zip(&there) {
        e.there = *t;
    }
    let t = w.tree();
    content(w.forest(), &t, &w.model).map_err(|e| format!("warm: {}", e))?;
    // new blocks may have been written, but the lost ones are still lost
    let f = w.cold(0);
    content(&f, &t, &w.model).map_err(|e| format!("cold: {}", e))?;
    if !root_lost {
        if let Some(l) = w.b.link() {
            let t: Tr = f.load_tree(secrets(), l).map_err(es)?;
            content(&f, &t, &w.model).map_err(|e| format!("reloaded: {}", e))?;
        } else {
            crate::ck!(link.is_none(), "root link lost though the root is readable");
        }
    }
    let link = w.b.link();
    let r2 = w
        .txn
        .repair(&mut w.b)
        .map_err(|e| format!("second repair failed: {}", es(e)))?;
    crate::ck!(
        r2.is_empty() && w.b.link() == link,
        "second repair changed something or reported {:?}",
        r2
    );
    content_quick(w.forest(), &w.tree(), &w.model)?;
    // the stream goes on
    let how = (pick.iter().sum::<usize>() + pick.len() + corrupt as usize) % 3;
    let ops: &[Op] = match how {
        0 => &[Op::E(3), Op::R, Op::E(5)],
        1 => &[Op::U(2), Op::P, Op::E(2)],
        _ => &[Op::P, Op::N(3), Op::U(1), Op::R, Op::N(2)],
    };
    for (i, op) in ops.iter().enumerate() {
        if *op == Op::P {
            // what is gone may be in the way
            let link = w.b.link();
            crate::ck!(w.txn.pack(&mut w.b).is_ok() || w.b.link() == link, "a failed pack changed the tree");
        } else {
            w.apply(op).map_err(|e| format!("operation {} after the repair: {}", i, e))?;
        }
        content_quick(w.forest(), &w.tree(), &w.model).map_err(|e| format!("after operation {} behind the repair: {}", i, e))?;
    }
    content(&w.cold(0), &w.tree(), &w.model).map_err(|e| format!("after {:?} behind the repair: {}", ops, e))
}

fn check09(c: &C9) -> R<u64> {
    let w = World::run(&c.h)?;
    let links = match w.b.index() {
        Some(i) => links_of(&load(&w.cold(0), i, 0)?),
        None => vec![],
    };
    let mut n = 0;
    let size = if links.len() <= 8 && c.size == 0 {
        0
    } else {
        c.size.max(2)
    };
    for s in subsets(links.len(), size) {
        for corrupt in [false, true] {
            guard(|| one09(c, &s, corrupt)).map_err(|e| {
                format!("lost blocks {:?} (preorder; corrupt={}): {}", s, corrupt, e)
            })?;
            n += 1;
        }
    }
    Ok(n)
}
pub fn replay09(v: &Value) -> R<()> {
    let c: C9 = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check09(&c).map(|_| ())
}
pub fn explore09(ctx: &Ctx) -> (&'static str, Value) {
    let mut cases = vec![];
    let cfgs = [
        (2, 2, 2, 0, 0),
        (1, 2, 2, 2, 1),
        (3, 2, 3, 1, 3),
        (1, 1, 2, 0, 0),
    ];
    for (l, k, s, kp, vp) in cfgs.iter() {
        let sc = Sc::new(Cfg::new(*l, *k, *s)).kp(*kp).vp(*vp);
        let mut a = crate::p01::alphabet(&[1, 3, 6], &[1, 3]);
        a.push(Op::F(Q::Std(2, 3, 0)));
        a.push(Op::Z(1));
        let a2: Vec<Op> = a
            .iter()
            .filter(|x| !matches!(x, Op::Z(_)))
            .cloned()
            .collect();
        let p = Bfs {
            alphabet: a2,
            depth: ctx.pick(3, 4),
            max_count: ctx.pick(9, 12),
        };
        for (i, h) in catalogue(ctx, sc, &p).into_iter().enumerate() {
            cases.push(C9 {
                h: h.with(Op::Z(i as u32)),
                size: 2,
                cap: 1 << 20,
            });
            cases.push(C9 {
                h,
                size: 0,
                cap: if i % 2 == 0 { 1 << 20 } else { 0 },
            });
        }
    }
    for n in [14, 20] {
        cases.push(C9 {
            h: Hist {
                sc: Sc::new(Cfg::new(1, 2, 2)),
                ops: vec![Op::E(n), Op::U(2)],
            },
            size: ctx.pick(2, 3),
            cap: 1 << 20,
        });
    }
    ctx.note("every subset of lost blocks for trees of up to 8 blocks, pairs (thorough: triples on large trees) beyond; each as missing and as unreadable".to_string());
    let r = ctx.par(&cases, check09);
    let n: u64 = r.iter().flatten().sum();
    ctx.count("trees", cases.len() as u64);
    ctx.count("tree-lost subset pairs", n);
    ctx.transitions.fetch_add(n, SeqCst);
    ctx.validated.store(n, SeqCst);
    (
        "fault_enumeration",
        serde_json::json!({"evaluations": n, "distinct_nontrivial": n - cases.len() as u64 * 2,
      "rule": "a case is one tree shape (distinct canonical shapes) with one subset of its blocks lost; trivial ones lose nothing"}),
    )
}
