//! P02 structure, accounting, limits; P03 packing
use crate::decode;
use crate::engine::*;
use crate::hist::*;
use crate::reads::*;
use crate::types::*;
use banyan::index::Index;
use serde_json::Value;
use std::sync::atomic::Ordering::SeqCst;

fn kr(keys: impl Iterator<Item = u64>) -> KR {
    let mut r = KR {
        min: u64::MAX,
        max: 0,
        n: 0,
    };
    for k in keys {
        r.min = r.min.min(k);
        r.max = r.max.max(k);
        r.n += 1;
    }
    r
}

/// everything the node's own children and block imply
pub fn structure(w: &World, n: &Node, limits: bool) -> R<KR> {
    let c = &w.sc.cfg;
    let at = format!("node at {:?} level {}", n.range(), n.index.level());
    match &n.index {
        Index::Leaf(l) => {
            let link = l.link.ok_or_else(|| format!("{}: purged", at))?;
            let keys: Vec<u64> = l.keys.as_ref().iter().map(|k| k.0).collect();
            crate::ck!(
                keys.len() == n.values.len(),
                "{}: {} keys, {} values",
                at,
                keys.len(),
                n.values.len()
            );
            crate::ck!(!keys.is_empty(), "{}: empty leaf", at);
            crate::ck!(n.index.count() == keys.len() as u64, "{}: count", at);
            let block = w.store.raw(&link).ok_or("leaf block missing")?;
            let (raw, plain) = decode::plain(&block, &VK)?;
            crate::ck!(
                l.value_bytes == raw.payload.len() as u64,
                "{}: value_bytes {} want {}",
                at,
                l.value_bytes,
                raw.payload.len()
            );
            let items = decode::split_items(&plain)?;
            crate::ck!(
                items.len() == keys.len(),
                "{}: {} encoded items",
                at,
                items.len()
            );
            if limits {
                crate::ck!(
                    keys.len() <= c.leaf,
                    "{}: {} elements > {}",
                    at,
                    keys.len(),
                    c.leaf
                );
                crate::ck!(
                    plain.len() <= c.unc,
                    "{}: {} uncompressed bytes > {}",
                    at,
                    plain.len(),
                    c.unc
                );
                let must =
                    keys.len() >= c.leaf || plain.len() >= c.unc || raw.payload.len() >= c.tls;
                if must {
                    crate::ck!(l.sealed, "{}: full leaf not sealed", at);
                }
                // a sealed leaf is full: one of the limits is reached, or the next element in the stream
                // would exceed the uncompressed limit
                if l.sealed && !must {
                    let next = w.model.get((n.offset + n.index.count()) as usize);
                    let fits = next
                        .map(|e| plain.len() + e.v.0.len() <= c.unc)
                        .unwrap_or(true);
                    crate::ck!(!fits, "{}: sealed but not full", at);
                }
            }
            Ok(kr(keys.into_iter()))
        }
        Index::Branch(b) => {
            let link = b.link.ok_or_else(|| format!("{}: purged", at))?;
            crate::ck!(!n.children.is_empty(), "{}: no children", at);
            let lv = n.children.iter().map(|c| c.index.level()).max().unwrap();
            crate::ck!(b.level == lv + 1, "{}: max child level {}", at, lv);
            let s: u64 = n.children.iter().map(|c| c.index.count()).sum();
            crate::ck!(b.count == s, "{}: count {} want {}", at, b.count, s);
            let s: u64 = n.children.iter().map(|c| c.index.value_bytes()).sum();
            crate::ck!(
                b.value_bytes == s,
                "{}: value_bytes {} want {}",
                at,
                b.value_bytes,
                s
            );
            let len = w.store.raw(&link).ok_or("branch block missing")?.len() as u64;
            let s: u64 = n.children.iter().map(|c| c.index.key_bytes()).sum();
            crate::ck!(
                b.key_bytes == s + len,
                "{}: key_bytes {} want {}",
                at,
                b.key_bytes,
                s + len
            );
            let got = b.summaries.as_ref();
            crate::ck!(
                got.len() == n.children.len(),
                "{}: {} summaries for {} children",
                at,
                got.len(),
                n.children.len()
            );
            let mut all = KR {
                min: u64::MAX,
                max: 0,
                n: 0,
            };
            for (i, c) in n.children.iter().enumerate() {
                let want = structure(w, c, limits)?;
                crate::ck!(
                    got[i] == want,
                    "{}: summary {} is {:?} want {:?}",
                    at,
                    i,
                    got[i],
                    want
                );
                all.min = all.min.min(want.min);
                all.max = all.max.max(want.max);
                all.n += want.n;
            }
            let m = if b.level == 1 { c.key } else { c.sum };
            if limits {
                crate::ck!(
                    n.children.len() <= m,
                    "{}: {} children > {}",
                    at,
                    n.children.len(),
                    m
                );
                let full = n.children.len() >= m
                    && n.children
                        .iter()
                        .all(|c| c.index.sealed() && c.index.level() + 1 == b.level);
                crate::ck!(
                    b.sealed == full,
                    "{}: sealed={} but full={}",
                    at,
                    b.sealed,
                    full
                );
            }
            if b.sealed {
                crate::ck!(
                    n.children
                        .iter()
                        .all(|c| c.index.sealed() && c.index.level() + 1 == b.level),
                    "{}: sealed over unsealed or low child",
                    at
                );
            }
            Ok(all)
        }
    }
}

pub fn check02(h: &Hist) -> R<String> {
    let w = World::run(h)?;
    inv(&w)?;
    w.canon()
}

pub fn inv(w: &World) -> R<()> {
    let f = w.cold(0);
    if let Some(i) = w.b.index() {
        let n = load(&f, i, 0)?;
        structure(w, &n, true)?;
        crate::ck!(i.count() == w.model.len() as u64, "root count");
        crate::ck!(
            w.b.level() == i.level() as i32 && w.tree().level() == i.level() as i32,
            "level()"
        );
        // the same through the root link
        let l = w.b.link().ok_or("no root link")?;
        let b2: SBd = f
            .load_stream_builder(secrets(), w.sc.cfg.config(), l)
            .map_err(es)?;
        let n2 = load(&f, b2.index().ok_or("empty")?, 0)?;
        structure(w, &n2, true).map_err(|e| format!("reloaded: {}", e))?;
        let (a, b) = (i, b2.index().unwrap());
        crate::ck!(
            a.count() == b.count()
                && a.level() == b.level()
                && a.sealed() == b.sealed()
                && a.value_bytes() == b.value_bytes()
                && a.key_bytes() == b.key_bytes()
                && a.summarize() == b.summarize(),
            "reloaded root index differs: {:?} vs {:?}",
            a,
            b
        );
        let m = f.check_invariants(&b2).map_err(es)?;
        crate::ck!(m.is_empty(), "check_invariants(reloaded): {:?}", m);
    } else {
        crate::ck!(
            w.model.is_empty() && w.b.level() == -1 && w.b.is_empty() && w.b.count() == 0,
            "empty builder"
        );
    }
    let m = w.forest().check_invariants(&w.b).map_err(es)?;
    crate::ck!(m.is_empty(), "check_invariants: {:?}", m);
    w.forest().assert_invariants(&w.b).map_err(es)?;
    Ok(())
}

/// a cbor item of exactly n bytes
pub fn exact(n: usize) -> Vec<u8> {
    for p in n.saturating_sub(9)..n {
        let b = c_bytes(&noise(5, p));
        if b.len() == n {
            return b;
        }
    }
    c_tag(1, exact(n - 1))
}

/// an element larger than the limit is refused and the builder untouched
fn oversize(h: &Hist) -> R<()> {
    for unpacked in [false, true] {
        for pre in 0..3u64 {
            let mut w = World::run(h)?;
            let before = w.canon()?;
            let link = w.b.link();
            let mut v: Vec<_> = (0..pre).map(|i| (K(i), value(0, i))).collect();
            // one byte too large
            let n = w.sc.cfg.unc;
            v.push((K(99), Val(exact(n + 1))));
            crate::ck!(v.last().unwrap().1 .0.len() == n + 1, "harness: size");
            let r = if unpacked {
                w.txn.extend_unpacked(&mut w.b, v)
            } else {
                w.txn.extend(&mut w.b, v)
            };
            crate::ck!(
                r.is_err(),
                "oversized element accepted (unpacked={}, after {})",
                unpacked,
                pre
            );
            crate::ck!(
                w.canon()? == before && w.b.link() == link,
                "builder changed by refused element"
            );
            content_quick(w.forest(), &w.tree(), &w.model)?;
            // and exactly the limit is accepted
            let val = Val(exact(n));
            crate::ck!(val.0.len() == n, "harness: size");
            w.txn
                .push(&mut w.b, K(5), val.clone())
                .map_err(|e| format!("element of exactly the limit refused: {}", es(e)))?;
            w.model.push(Ent {
                k: K(5),
                v: val,
                there: true,
            });
            content_quick(w.forest(), &w.tree(), &w.model)?;
            inv(&w)?;
        }
    }
    Ok(())
}

pub fn replay02(v: &Value) -> R<()> {
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check02(&h)?;
    if h.sc.cfg.unc < 200 {
        oversize(&h)?;
    }
    Ok(())
}

pub fn explore02(ctx: &Ctx) -> (&'static str, Value) {
    // count limits
    let cfgs = [
        (2, 2, 2),
        (1, 1, 2),
        (3, 2, 3),
        (2, 3, 2),
        (1, 3, 2),
        (4, 1, 3),
    ];
    for (i, (l, k, s)) in cfgs.iter().enumerate() {
        let sc = Sc::new(Cfg::new(*l, *k, *s))
            .vp((i % 4) as u8)
            .kp((i % 5) as u8);
        let mut a = crate::p01::alphabet(&[1, 2, 3, 5, 7], &[1, 3, 4]);
        a.push(Op::N(2));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(5, 6),
            max_count: ctx.pick(22, 40),
        };
        bfs(ctx, sc, &p, check02);
        ctx.note(format!(
            "count limits {:?}: depth <= {}, {} ops, <= {} elements",
            cfgs[i],
            p.depth,
            p.alphabet.len(),
            p.max_count
        ));
    }
    // byte limits
    for (unc, tls, vp) in [
        (12, BIG, 5),
        (25, BIG, 5),
        (9, BIG, 0),
        (60, BIG, 2),
        (BIG, 30, 1),
        (BIG, 20, 5),
        (BIG, 40, 3),
        (40, 24, 2),
        (100, 48, 4),
        (10, 1, 5),
        (200, 23, 4),
    ] {
        for leaf in [3usize, 1000] {
            let sc = Sc::new(Cfg::new(leaf, 2, 2).sizes(tls, unc)).vp(vp);
            // an element larger than the limit makes the append fail, keep those apart
            let maxlen = (0..60).map(|n| value(vp, n).0.len()).max().unwrap();
            if maxlen > unc {
                // only the refusal itself
                let h = Hist {
                    sc: Sc { vp: 0, ..sc },
                    ops: vec![Op::E(2)],
                };
                if unc >= 6 {
                    ctx.par(&[h], oversize);
                }
                continue;
            }
            let a = crate::p01::alphabet(&[1, 2, 3, 4, 6], &[1, 3]);
            let p = Bfs {
                alphabet: a,
                depth: ctx.pick(4, 5),
                max_count: ctx.pick(14, 24),
            };
            let reps = bfs(ctx, sc, &p, check02);
            if unc < 200 {
                let reps: Vec<_> = reps.into_iter().take(ctx.pick(40, 400)).collect();
                ctx.par(&reps, oversize);
            }
            ctx.note(format!(
                "byte limits unc={} tls={} leaf={} value pattern {}: depth <= {}, <= {} elements",
                unc, tls, leaf, vp, p.depth, p.max_count
            ));
        }
    }
    crate::shapes::each(ctx, &[Op::P, Op::R], ctx.pick(3, 4), true, check02);
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}

// ---------------------------------------------------------------- P03

fn packed(n: &Node) -> R<()> {
    if n.children.is_empty() {
        return Ok(());
    }
    let k = n.children.len();
    for (i, c) in n.children.iter().enumerate() {
        let last = i + 1 == k;
        if !last || n.index.sealed() {
            crate::ck!(
                c.index.sealed(),
                "unsealed node at {:?} is not last",
                c.range()
            );
            crate::ck!(
                c.index.level() + 1 == n.index.level(),
                "node at {:?} level {} below level {}",
                c.range(),
                c.index.level(),
                n.index.level()
            );
        }
        packed(c)?;
    }
    Ok(())
}

fn ck_packed(w: &World, what: &str) -> R<String> {
    let f = w.cold(0);
    if let Some(i) = w.b.index() {
        let n = load(&f, i, 0)?;
        packed(&n).map_err(|e| format!("{}: {}", what, e))?;
    }
    crate::ck!(
        w.forest().is_packed(&w.tree()).map_err(es)?,
        "{}: is_packed is false",
        what
    );
    content_quick(w.forest(), &w.tree(), &w.model).map_err(|e| format!("{}: {}", what, e))?;
    if let Some(i) = w.b.index() {
        let l = w.b.link().ok_or("packed tree has no root link")?;
        let t: Tr = f
            .load_tree(secrets(), l)
            .map_err(|e| format!("{}: load_tree: {}", what, es(e)))?;
        content_quick(&f, &t, &w.model).map_err(|e| format!("{} (reloaded): {}", what, e))?;
        crate::ck!(
            f.is_packed(&t).map_err(es)?,
            "{}: reloaded tree not packed",
            what
        );
        // wrong packedness must not be reported for trees that are not: independent definition agrees both ways
        let b2: SBd = f
            .load_stream_builder(secrets(), w.sc.cfg.config(), l)
            .map_err(es)?;
        crate::ck!(
            shape(&f, b2.index().unwrap(), false)? == shape(&f, i, false)?,
            "{}: reloaded shape differs",
            what
        );
    }
    w.canon()
}

fn strip(c: &str) -> String {
    c.split_once('/')
        .map(|x| x.1.to_string())
        .unwrap_or_default()
}

pub fn check03(h: &Hist) -> R<String> {
    let w = World::run(h)?;
    let canon = w.canon()?;
    // is_packed agrees with the independent definition on every tree
    if let Some(i) = w.b.index() {
        let n = load(&w.cold(0), i, 0)?;
        let want = packed(&n).is_ok();
        let got = w.forest().is_packed(&w.tree()).map_err(es)?;
        crate::ck!(
            got == want,
            "is_packed={} but independent definition says {}",
            got,
            want
        );
    }
    let mut w = w;
    let was_packed = w.forest().is_packed(&w.tree()).map_err(es)?;
    // pack
    w.apply(&Op::P).map_err(|e| format!("pack: {}", e))?;
    let c1 = ck_packed(&w, "pack")?;
    if was_packed {
        crate::ck!(
            strip(&c1) == strip(&canon),
            "packing a packed tree changed {} to {}",
            canon,
            c1
        );
    }
    let puts = w.store.with(|i| i.puts);
    w.apply(&Op::P).map_err(|e| format!("second pack: {}", e))?;
    let c2 = ck_packed(&w, "second pack")?;
    crate::ck!(
        strip(&c1) == strip(&c2),
        "second pack changed {} to {}",
        c1,
        c2
    );
    let _ = puts;
    // extends keep it packed, also through a reload
    for op in [Op::E(1), Op::E(3), Op::R, Op::N(2), Op::E(4)] {
        w.apply(&op)
            .map_err(|e| format!("after pack {:?}: {}", op, e))?;
        ck_packed(&w, &format!("after pack, {:?}", op))?;
    }
    crate::p02::inv_nolimit(&w)?;
    Ok(canon)
}

pub fn inv_nolimit(w: &World) -> R<()> {
    if let Some(i) = w.b.index() {
        structure(w, &load(&w.cold(0), i, 0)?, false)?;
    }
    Ok(())
}

pub fn replay03(v: &Value) -> R<()> {
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check03(&h).map(|_| ())
}

pub fn explore03(ctx: &Ctx) -> (&'static str, Value) {
    let cfgs = [
        (2, 2, 2),
        (1, 2, 2),
        (1, 1, 2),
        (3, 2, 3),
        (2, 3, 2),
        (2, 1, 3),
        (1, 2, 4),
    ];
    for (i, (l, k, s)) in cfgs.iter().enumerate() {
        let sc = Sc::new(Cfg::new(*l, *k, *s)).vp((i % 2) as u8);
        let mut a = crate::p01::alphabet(&[1, 2, 3, 4, 7], &[1, 2, 3, 4, 7]);
        a.push(Op::U(9));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(if i < 2 { 4 } else { 3 }, 5),
            max_count: ctx.pick(24, 40),
        };
        bfs(ctx, sc, &p, check03);
        ctx.note(format!(
            "cfg {:?}: depth <= {}, {} ops, <= {} elements",
            cfgs[i],
            p.depth,
            p.alphabet.len(),
            p.max_count
        ));
    }
    // byte limits
    for (unc, tls, vp) in [(25, BIG, 5), (BIG, 30, 1), (40, 24, 2)] {
        let sc = Sc::new(Cfg::new(1000, 2, 2).sizes(tls, unc)).vp(vp);
        let p = Bfs {
            alphabet: crate::p01::alphabet(&[1, 3, 5], &[1, 2, 5]),
            depth: ctx.pick(4, 5),
            max_count: ctx.pick(16, 30),
        };
        bfs(ctx, sc, &p, check03);
    }
    // chains of unpacked appends, long ones
    let mut cases = vec![];
    for n in 1..ctx.pick(24u32, 80) {
        for step in [1u32, 2, 3, 5] {
            for c in [(2, 2, 2), (3, 4, 3), (1, 2, 2)] {
                let sc = Sc::new(Cfg::new(c.0, c.1, c.2));
                cases.push(Hist {
                    sc,
                    ops: (0..n).map(|_| Op::U(step)).collect(),
                });
                let mut ops: Vec<Op> = (0..n).map(|i| Op::U(1 + (i % step))).collect();
                ops.insert(0, Op::E(n));
                cases.push(Hist { sc, ops });
            }
        }
    }
    ctx.par(&cases, check03);
    crate::shapes::each(ctx, &[Op::P, Op::R], ctx.pick(3, 4), true, check03);
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}
