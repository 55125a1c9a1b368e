//! P01 append fidelity
use crate::engine::*;
use crate::hist::*;
use crate::reads::*;
use serde_json::Value;
use std::sync::atomic::Ordering::SeqCst;

pub fn check(h: &Hist) -> R<String> {
    let w = World::run(h)?;
    ck(&w)?;
    w.canon()
}

fn ck(w: &World) -> R<()> {
    let t = w.tree();
    crate::ck!(w.b.count() == w.model.len() as u64, "builder count");
    crate::ck!(w.b.is_empty() == w.model.is_empty(), "builder is_empty");
    content(w.forest(), &t, &w.model).map_err(|e| format!("warm: {}", e))?;
    // through the root link, with a cold cache and with none
    if let Some(l) = w.b.link() {
        for cap in [0, 1 << 20] {
            let f = w.cold(cap);
            let t2: Tr = f
                .load_tree(secrets(), l)
                .map_err(|e| format!("load_tree: {}", es(e)))?;
            content(&f, &t2, &w.model).map_err(|e| format!("cold({}): {}", cap, e))?;
        }
    } else {
        crate::ck!(w.model.is_empty(), "non-empty builder without root link");
    }
    Ok(())
}

/// what an append may do at most is to refuse; it never makes the stream unreadable
fn refuse(h: &Hist) -> R<String> {
    let mut w = World::new(h.sc);
    let mut refused = 0;
    for op in &h.ops {
        let link = w.b.link();
        let saved = w.model.clone();
        if let Err(e) = w.apply(op) {
            crate::ck!(!e.contains("panicked"), "{:?}: {}", op, e);
            w.model = saved;
            refused += 1;
            crate::ck!(w.b.link() == link, "refused {:?} changed the stream", op);
        }
        let f = w.cold(0);
        content_quick(&f, &w.tree(), &w.model).map_err(|e| format!("after {:?}: {}", op, e))?;
        if let Some(l) = w.b.link() {
            let t: Tr = f.load_tree(secrets(), l).map_err(es)?;
            content_quick(&f, &t, &w.model).map_err(|e| format!("reloaded after {:?}: {}", op, e))?;
        }
    }
    Ok(format!("{}", refused))
}

pub fn replay(v: &Value) -> R<()> {
    if let Some(h) = v.get("refuse") {
        let h: Hist = serde_json::from_value(h.clone()).map_err(|e| e.to_string())?;
        return refuse(&h).map(|_| ());
    }
    let h: Hist = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    check(&h).map(|_| ())
}

pub fn alphabet(ns: &[u32], us: &[u32]) -> Vec<Op> {
    let mut a: Vec<Op> = ns.iter().map(|n| Op::E(*n)).collect();
    a.extend(us.iter().map(|n| Op::U(*n)));
    a.push(Op::P);
    a.push(Op::R);
    a
}

pub fn explore(ctx: &Ctx) -> (&'static str, Value) {
    let rb = |v: Vec<Op>| Op::Rb(v);
    // tiny configurations, full alphabet
    let cfgs = [
        (2, 2, 2),
        (1, 2, 2),
        (3, 3, 2),
        (2, 1, 2),
        (2, 3, 4),
        (4, 2, 3),
        (1, 1, 2),
        (3, 1, 3),
    ];
    for (i, (l, k, s)) in cfgs.iter().enumerate() {
        let sc = Sc::new(Cfg::new(*l, *k, *s)).vp(if i % 2 == 0 { 0 } else { 3 });
        let mut a = alphabet(&[0, 1, 2, 3, 5], &[0, 1, 2, 3, 5]);
        a.push(Op::N(3));
        a.push(rb(vec![Op::E(3)]));
        a.push(rb(vec![Op::U(2), Op::P]));
        a.push(rb(vec![Op::Cm(vec![Op::E(1)]), Op::P, Op::U(1)]));
        a.push(Op::Cm(vec![
            Op::E(2),
            Op::Rb(vec![Op::E(3), Op::P]),
            Op::U(1),
        ]));
        let p = Bfs {
            alphabet: a,
            depth: ctx.pick(if i < 3 { 4 } else { 3 }, 5),
            max_count: ctx.pick(14, 24),
        };
        bfs(ctx, sc, &p, check);
        ctx.note(format!(
            "cfg {:?}: all histories of depth <= {} over {} ops, <= {} elements",
            cfgs[i],
            p.depth,
            p.alphabet.len(),
            p.max_count
        ));
    }
    crate::shapes::each(ctx, &[Op::P, Op::R], ctx.pick(3, 4), true, check);
    // continued with another configuration
    let mut a = alphabet(&[1, 4, 9], &[1, 3]);
    for c in [(1, 2, 2), (5, 4, 3), (2, 1, 2)] {
        a.push(Op::Rc(Cfg::new(c.0, c.1, c.2)));
    }
    for (l, k, s) in [(2, 2, 2), (3, 3, 2)] {
        let p = Bfs { alphabet: a.clone(), depth: ctx.pick(4, 5), max_count: ctx.pick(20, 30) };
        bfs(ctx, Sc::new(Cfg::new(l, k, s)), &p, check);
    }
    ctx.note("reloading with 3 other configurations: depth <= 4 (thorough 5) from 2 configurations");
    // blocks around the size that can be decompressed at all
    #[derive(serde::Serialize)]
    struct Refuse {
        refuse: Hist,
    }
    let mut many = Cfg::new(1 << 20, 100, 4);
    many.unc = 16 * BIG;
    let mut long = Cfg::new(1000, 2, 2);
    long.unc = 64 * BIG;
    let v: Vec<Refuse> = [
        (many, 5, 0, vec![Op::E(1_700_000), Op::E(300_000), Op::E(2)]),
        (many, 5, 0, vec![Op::U(1_900_000), Op::U(3), Op::P]),
        (long, 0, 11, vec![Op::E(150), Op::E(30), Op::E(60)]),
        (long, 0, 11, vec![Op::U(171), Op::E(2)]),
    ]
    .into_iter()
    .map(|(cfg, kp, vp, ops)| Refuse { refuse: Hist { sc: Sc::new(cfg).kp(kp).vp(vp), ops } })
    .collect();
    ctx.par(&v, |x| refuse(&x.refuse));
    ctx.note("branches and leaves around 16 MiB (the most that can be read): appends may be refused, never spoil the stream");
    ctx.validated.store(ctx.evals.load(SeqCst), SeqCst);
    ("model_checking", Value::Null)
}
