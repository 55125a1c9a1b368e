//! Trees outside the small scope, one dimension at a time: wide and deep branches, long leaves,
//! big blocks, and configurations as used in production. Histories are enumerated over coarse steps.
use crate::engine::Ctx;
use crate::hist::*;
use crate::q::Q;
use std::sync::atomic::Ordering::SeqCst;

pub struct Scale {
    pub name: &'static str,
    pub sc: Sc,
    /// appends whose sizes straddle the limit that the shape is about
    pub appends: Vec<Op>,
    pub max: u64,
    /// megabytes of values
    pub heavy: bool,
}

fn s(name: &'static str, sc: Sc, e: &[u32], u: &[u32], max: u64) -> Scale {
    let mut appends: Vec<Op> = e.iter().map(|n| Op::E(*n)).collect();
    appends.extend(u.iter().map(|n| Op::U(*n)));
    Scale { name, sc, appends, max, heavy: false }
}

pub fn scales() -> Vec<Scale> {
    let heavy = |x: Scale| Scale { heavy: true, ..x };
    let z = |mut c: Cfg, z: i32| {
        c.z = z;
        c
    };
    vec![
        s("leaves around 32 and 64 entries", Sc::new(Cfg::new(66, 3, 2)).kp(1), &[31, 33, 64, 67], &[65], 240),
        s("leaves around 256 entries", Sc::new(Cfg::new(300, 100, 100)).kp(4), &[255, 2, 300, 600], &[301], 1500),
        s("leaves around 1024 entries", Sc::new(Cfg::new(2000, 2, 2)).kp(2), &[1023, 2, 2100], &[1025], 5000),
        s("branches around 64 children", Sc::new(Cfg::new(1, 66, 66)).kp(4), &[63, 2, 70], &[65], 230),
        s("branches around 256 children", Sc::new(Cfg::new(1, 300, 260)), &[255, 2, 301], &[257], 900),
        s("many branches in a branch", Sc::new(Cfg::new(1, 1, 130)).kp(1), &[64, 1, 127, 131], &[129], 300),
        s("up to 8 levels", Sc::new(Cfg::new(1, 2, 2)).kp(2), &[31, 33, 64, 65], &[40], 200),
        s("9 levels, one leaf per branch", Sc::new(Cfg::new(1, 1, 2)), &[127, 1, 128], &[33], 300),
        s("leaves limited by their compressed size", Sc::new(z(Cfg::new(1 << 14, 32, 32).sizes(1 << 14, 16 * BIG), 3)).vp(6), &[700, 1500, 4000], &[900], 8000),
        s("branches above 64 KiB", Sc::new(Cfg::new(2000, 6, 6)).kp(5), &[8100, 1999], &[4100], 17000),
        s("leaves above 64 KiB", Sc::new(Cfg::new(1000, 2, 2)).vp(10), &[33, 120], &[40], 300),
        heavy(s("leaves limited by their uncompressed size", Sc::new(Cfg::new(1000, 2, 2)).vp(11), &[45, 150, 9], &[50], 400)),
        heavy(s("leaves of up to 16 MiB", Sc::new(Cfg::new(1000, 2, 2).sizes(4096, 16 * BIG)).vp(11), &[160, 20], &[43], 400)),
    ]
}

/// all histories of up to `depth` steps for every scale
pub fn each(ctx: &Ctx, extra: &[Op], depth: usize, heavy: bool, f: impl Fn(&Hist) -> crate::engine::R<String> + Sync) -> Vec<Hist> {
    let mut out = vec![];
    for x in scales() {
        if x.heavy && !heavy {
            continue;
        }
        let mut alphabet = x.appends.clone();
        alphabet.extend(extra.iter().cloned());
        let d = if x.heavy { 2 } else { depth };
        let max_count = if x.heavy && ctx.quick() { x.max / 2 } else { x.max };
        let t = std::time::Instant::now();
        out.extend(bfs(ctx, x.sc, &Bfs { alphabet, depth: d, max_count }, &f));
        ctx.note(format!("scale {:?}: histories of up to {} coarse steps, up to {} elements", x.name, d, max_count));
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("{}: {:?} evals {}", x.name, t.elapsed(), ctx.evals.load(SeqCst));
        }
    }
    out
}

/// trees to read from. Quick: of the long streams only those of one step, possibly pruned or with an unpacked rest
pub fn trees(ctx: &Ctx, depth: usize, heavy: bool) -> Vec<Hist> {
    let v = each(ctx, &[Op::P, Op::F(Q::Std(2, 40, 0)), Op::F(Q::Key(1, 1))], depth, heavy, |h| World::run(h)?.canon());
    v.into_iter()
        .filter(|h| {
            !ctx.quick()
                || size_of(&h.ops) <= 300 && h.sc.vp < 10
                || h.ops.len() == 1
                || matches!(h.ops.last(), Some(Op::F(Q::Std(..)) | Op::U(_)))
        })
        .collect()
}
