//! Operation histories on the real stream builder, with the reference model.
use crate::engine::{Ctx, R};
use crate::q::Q;
use crate::store::LogStore;
use crate::types::*;
use banyan::index::{BranchLoader, CompactSeq, Index, LeafLoader};
use banyan::store::BranchCache;
use banyan::{Config, Forest, Secrets, StreamBuilder, Transaction, Tree};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub type F = Forest<TT, LogStore>;
pub type Txn = Transaction<TT, LogStore, LogStore>;
pub type SBd = StreamBuilder<TT, Val>;
pub type Tr = Tree<TT, Val>;

pub const IK: [u8; 32] = [0x11; 32];
pub const VK: [u8; 32] = [0x22; 32];

thread_local! {
    /// use one key for both purposes, as Secrets::default does
    pub static SAME_KEY: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn secrets() -> Secrets {
    if SAME_KEY.with(|x| x.get()) {
        Secrets::new(IK.into(), IK.into())
    } else {
        Secrets::new(IK.into(), VK.into())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Cfg {
    pub leaf: usize,
    pub key: usize,
    pub sum: usize,
    /// target (compressed) leaf size
    pub tls: usize,
    /// max uncompressed leaf size
    pub unc: usize,
    pub z: i32,
}
pub const BIG: usize = 1 << 20;
impl Cfg {
    pub fn new(leaf: usize, key: usize, sum: usize) -> Self {
        Cfg {
            leaf,
            key,
            sum,
            tls: BIG,
            unc: 16 * BIG,
            z: 1,
        }
    }
    pub fn sizes(mut self, tls: usize, unc: usize) -> Self {
        self.tls = tls;
        self.unc = unc;
        self
    }
    pub fn config(&self) -> Config {
        let c = Config {
            max_summary_branches: self.sum,
            max_key_branches: self.key,
            max_leaf_count: self.leaf,
            target_leaf_size: self.tls,
            max_uncompressed_leaf_size: self.unc,
            zstd_level: self.z,
        };
        c
    }
}

/// how keys and values are derived from the running item number
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Sc {
    pub cfg: Cfg,
    /// key pattern: 0: n, 1: n/2 % 3, 2: n % 3, 3: constant
    pub kp: u8,
    /// value pattern: see `value`
    pub vp: u8,
    /// branch cache capacity in bytes
    pub cache: usize,
}
impl Sc {
    pub fn new(cfg: Cfg) -> Self {
        Sc {
            cfg,
            kp: 0,
            vp: 0,
            cache: 1 << 20,
        }
    }
    pub fn kp(mut self, k: u8) -> Self {
        self.kp = k;
        self
    }
    pub fn vp(mut self, k: u8) -> Self {
        self.vp = k;
        self
    }
    pub fn cache(mut self, k: usize) -> Self {
        self.cache = k;
        self
    }
}

pub fn key(kp: u8, n: u64) -> K {
    K(match kp {
        0 => n,
        1 => (n / 2) % 3,
        2 => n % 3,
        3 => 7,
        4 => (n * 5) % 11,
        _ => u64::from_le_bytes(noise(n + 77, 8).try_into().unwrap()),
    })
}
pub fn value(vp: u8, n: u64) -> Val {
    Val(match vp {
        // small distinct integers (fixed size 3 bytes)
        0 => c_uint(1000 + n),
        // 8 byte incompressible
        1 => c_bytes(&noise(n + 1, 7)),
        // alternating sizes
        2 => c_bytes(&noise(n + 1, [1usize, 9, 3, 20][(n % 4) as usize])),
        // mixed shapes
        3 => match n % 8 {
            0 => c_uint(n),
            1 => c_text(&format!("v{}", n)),
            2 => c_arr(&[c_uint(n), c_arr(&[]), c_text("x")]),
            3 => c_map(&[
                (c_text("a"), c_uint(n)),
                (c_text("b"), c_arr(&[c_uint(1), c_uint(2)])),
            ]),
            4 => c_tag(99, c_text(&format!("{}", n))),
            5 => {
                // indefinite array
                let mut o = vec![0x9f];
                o.extend(c_uint(n));
                o.extend(c_text("y"));
                o.push(0xff);
                o
            }
            6 => {
                let mut o = vec![0xfb];
                o.extend_from_slice(&(n as f64 + 0.5).to_be_bytes());
                o
            }
            _ => c_tag(3, c_bytes(&noise(n, 5))),
        },
        // highly compressible, bigger
        4 => c_arr(&[c_uint(1000 + n), c_bytes(&vec![7u8; 40])]),
        // sizes sweeping 1..
        5 => c_bytes(&noise(n + 1, (n % 13) as usize)),
        // noise inside other structures
        6 => c_arr(&[c_uint(n), c_bytes(&noise(n + 1, 16))]),
        7 => c_map(&[(c_bytes(&noise(n + 5, 12)), c_bytes(&noise(n + 1, 30)))]),
        9 => return crate::p15::linky(n),
        // incompressible, 2 KiB
        10 => c_arr(&[c_uint(n), c_bytes(&noise(n + 1, 2048))]),
        // 100 KB that compress well
        11 => c_arr(&[c_uint(n), c_bytes(&vec![n as u8; 100_000])]),
        _ => c_uint(n),
    })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// extend with n elements
    E(u32),
    /// extend_unpacked with n elements
    U(u32),
    /// push n single elements
    N(u32),
    /// pack
    P,
    /// reload the builder from its root link (skipped when there is none)
    R,
    /// reload as in R but with a different config
    Rc(Cfg),
    /// transaction that is dropped
    Rb(Vec<Op>),
    /// transaction that is committed
    Cm(Vec<Op>),
    /// retain
    F(Q),
    /// the operation with the k-th put failing; its error is ignored
    Fl(Box<Op>, u64),
    /// lose the n-th reachable non-root block (preorder, modulo their number), then repair
    Z(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Hist {
    pub sc: Sc,
    pub ops: Vec<Op>,
}
impl Hist {
    pub fn with(&self, op: Op) -> Hist {
        let mut h = self.clone();
        h.ops.push(op);
        h
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub k: K,
    pub v: Val,
    /// false once it is known to have been forgotten
    pub there: bool,
}

pub struct World {
    pub sc: Sc,
    pub store: LogStore,
    pub txn: Txn,
    pub b: SBd,
    pub model: Vec<Ent>,
    pub next: u64,
    pub flags: BTreeSet<char>,
}

/// state other than the builder
pub struct Side<'a> {
    pub sc: Sc,
    pub txn: &'a mut Txn,
    pub model: &'a mut Vec<Ent>,
    pub next: &'a mut u64,
    pub flags: &'a mut BTreeSet<char>,
    pub store: &'a LogStore,
}

pub fn es(e: anyhow::Error) -> String {
    format!("{:#}", e)
}

impl World {
    pub fn new(sc: Sc) -> Self {
        let store = LogStore::default();
        let forest = Forest::new(store.clone(), BranchCache::new(sc.cache));
        World {
            sc,
            txn: Transaction::new(forest, store.clone()),
            store,
            b: StreamBuilder::new(sc.cfg.config(), secrets()),
            model: vec![],
            next: 0,
            flags: Default::default(),
        }
    }
    pub fn run(h: &Hist) -> R<World> {
        let mut w = World::new(h.sc);
        for (i, op) in h.ops.iter().enumerate() {
            w.apply(op)
                .map_err(|e| format!("op {} {:?}: {}", i, op, e))?;
        }
        Ok(w)
    }
    pub fn apply(&mut self, op: &Op) -> R<()> {
        let mut s = Side {
            sc: self.sc,
            txn: &mut self.txn,
            model: &mut self.model,
            next: &mut self.next,
            flags: &mut self.flags,
            store: &self.store,
        };
        apply(&mut s, &mut self.b, op)
    }
    pub fn forest(&self) -> &F {
        &self.txn
    }
    /// a forest with a cold cache on the same store
    pub fn cold(&self, cap: usize) -> F {
        Forest::new(self.store.clone(), BranchCache::new(cap))
    }
    pub fn tree(&self) -> Tr {
        self.b.snapshot()
    }
    pub fn canon(&self) -> R<String> {
        let fl: String = self.flags.iter().collect();
        let sizes = self.sc.cfg.tls < BIG || self.sc.cfg.unc < BIG;
        let f = self.cold(0);
        Ok(match self.b.index() {
            None => format!("{}/-", fl),
            Some(i) => format!("{}/{}", fl, shape(&f, i, sizes)?),
        })
    }
}

pub fn items(sc: &Sc, next: &mut u64, n: u32) -> Vec<(K, Val)> {
    (0..n)
        .map(|_| {
            let i = *next;
            *next += 1;
            (key(sc.kp, i), value(sc.vp, i))
        })
        .collect()
}

pub fn ents(v: &[(K, Val)]) -> impl Iterator<Item = Ent> + '_ {
    v.iter().map(|(k, v)| Ent {
        k: *k,
        v: v.clone(),
        there: true,
    })
}

pub fn apply(s: &mut Side, b: &mut SBd, op: &Op) -> R<()> {
    match op {
        Op::E(n) => {
            let v = items(&s.sc, s.next, *n);
            s.txn.extend(b, v.clone()).map_err(es)?;
            s.model.extend(ents(&v));
        }
        Op::U(n) => {
            s.flags.insert('u');
            let v = items(&s.sc, s.next, *n);
            s.txn.extend_unpacked(b, v.clone()).map_err(es)?;
            s.model.extend(ents(&v));
        }
        Op::N(n) => {
            for _ in 0..*n {
                let v = items(&s.sc, s.next, 1);
                s.txn.push(b, v[0].0, v[0].1.clone()).map_err(es)?;
                s.model.extend(ents(&v));
            }
        }
        Op::P => {
            s.flags.insert('p');
            let before = format!("{:?}", b.index());
            if let Err(e) = s.txn.pack(b) {
                // data lost behind the packed part can not be packed; the stream stays as it is
                let n: u64 = s.txn.roots(b).map_err(es)?.iter().map(|r| r.count()).sum();
                let lost = s.model.iter().skip(n as usize).any(|e| !e.there);
                let injected = s.store.with(|i| !i.fail_puts.is_empty() || !i.fail_gets.is_empty());
                if injected || !lost {
                    return Err(es(e));
                }
                crate::ck!(e.to_string().contains("purged"), "{}", e);
                crate::ck!(before == format!("{:?}", b.index()), "failed pack changed the stream");
            }
        }
        Op::R => {
            if let Some(l) = b.link() {
                s.flags.insert('r');
                *b = s
                    .txn
                    .load_stream_builder(secrets(), s.sc.cfg.config(), l)
                    .map_err(es)?;
            }
        }
        Op::Rc(cfg) => {
            if let Some(l) = b.link() {
                s.flags.insert('c');
                *b = s
                    .txn
                    .load_stream_builder(secrets(), cfg.config(), l)
                    .map_err(es)?;
            }
        }
        Op::Rb(ops) => {
            s.flags.insert('x');
            let saved = s.model.clone();
            let mut t = b.transaction();
            for o in ops {
                apply(s, &mut t, o)?;
            }
            drop(t);
            *s.model = saved;
        }
        Op::Cm(ops) => {
            s.flags.insert('m');
            let mut t = b.transaction();
            for o in ops {
                apply(s, &mut t, o)?;
            }
            t.commit();
        }
        Op::F(q) => {
            s.flags.insert('f');
            s.txn.retain(b, &q.compile()).map_err(es)?;
            // what is really gone is read off the tree; legality is a property of its own
            let there = presence(s.txn, b.index())?;
            crate::ck!(there.len() == s.model.len(), "retain changed the count");
            for (e, t) in s.model.iter_mut().zip(there) {
                e.there = t;
            }
        }
        Op::Fl(op, k) => {
            s.flags.insert('e');
            let saved = s.model.clone();
            s.store.arm(|i| {
                i.fail_puts.insert(*k);
            });
            let r = apply(s, b, op);
            let hit = s.store.with(|i| i.faults_hit) > 0;
            s.store.disarm();
            if let Err(e) = r {
                crate::ck!(hit, "{}", e);
                *s.model = saved;
                if let Op::Z(_) = **op {
                    // the block is lost; a later repair succeeds
                    repair(s, b)?;
                }
            }
        }
        Op::Z(n) => {
            let Some(i) = b.index().cloned() else {
                return Ok(());
            };
            let f = Forest::new(s.store.clone(), BranchCache::new(0));
            let root = load(&f, &i, 0)?;
            let mut links = vec![];
            root.visit(&mut |x| links.extend(x.index.link().iter().copied()));
            if links.len() < 2 {
                return Ok(());
            }
            s.flags.insert('z');
            let l = links[1 + *n as usize % (links.len() - 1)];
            s.store.with(|i| i.blocks.remove(&l));
            repair(s, b)?;
        }
    }
    Ok(())
}

fn repair(s: &mut Side, b: &mut SBd) -> R<()> {
    s.txn.repair(b).map_err(es)?;
    let f = Forest::new(s.store.clone(), BranchCache::new(0));
    let there = presence(&f, b.index())?;
    crate::ck!(there.len() == s.model.len(), "repair changed the count");
    for (e, t) in s.model.iter_mut().zip(there) {
        e.there = t;
    }
    Ok(())
}

/// which offsets are still reachable (not below a purged node), by walking the index
pub fn presence(f: &F, root: Option<&Index<TT>>) -> R<Vec<bool>> {
    fn go(f: &F, i: &Index<TT>, out: &mut Vec<bool>) -> R<()> {
        match (i, i.link()) {
            (_, None) => out.extend((0..i.count()).map(|_| false)),
            (Index::Leaf(_), Some(_)) => out.extend((0..i.count()).map(|_| true)),
            (Index::Branch(_), Some(l)) => {
                let b = BranchLoader::new(f, &secrets(), *l).load().map_err(es)?;
                for c in b.children.iter() {
                    go(f, c, out)?;
                }
            }
        }
        Ok(())
    }
    let mut out = vec![];
    if let Some(i) = root {
        go(f, i, &mut out)?;
    }
    Ok(out)
}

/// canonical shape string
pub fn shape(f: &F, i: &Index<TT>, sizes: bool) -> R<String> {
    let seal = if i.sealed() { "s" } else { "" };
    Ok(match (i, i.link()) {
        (Index::Leaf(l), Some(_)) => {
            if sizes {
                format!("{}b{}{}", l.keys.len(), l.value_bytes, seal)
            } else {
                format!("{}{}", l.keys.len(), seal)
            }
        }
        (Index::Leaf(l), None) => format!("x{}{}", l.keys.len(), seal),
        (Index::Branch(b), None) => format!("X{}l{}{}", b.count, b.level, seal),
        (Index::Branch(_), Some(l)) => {
            let br = BranchLoader::new(f, &secrets(), *l).load().map_err(es)?;
            let mut s = String::from("(");
            for (n, c) in br.children.iter().enumerate() {
                if n > 0 {
                    s.push(' ');
                }
                s.push_str(&shape(f, c, sizes)?);
            }
            s.push(')');
            s.push_str(seal);
            s
        }
    })
}

/// fully loaded tree
#[derive(Clone, Debug)]
pub struct Node {
    pub index: Index<TT>,
    pub offset: u64,
    pub children: Vec<Node>,
    /// values for non purged leaves
    pub values: Vec<Val>,
}

pub fn load(f: &F, i: &Index<TT>, offset: u64) -> R<Node> {
    let mut children = vec![];
    let mut values = vec![];
    if let Some(l) = i.link() {
        match i {
            Index::Branch(_) => {
                let br = BranchLoader::new(f, &secrets(), *l).load().map_err(es)?;
                let mut o = offset;
                for c in br.children.iter() {
                    children.push(load(f, c, o)?);
                    o += c.count();
                }
            }
            Index::Leaf(_) => {
                let lf = LeafLoader::new(f, &secrets(), *l).load().map_err(es)?;
                values = lf.as_ref().items::<Val>().map_err(es)?;
            }
        }
    }
    Ok(Node {
        index: i.clone(),
        offset,
        children,
        values,
    })
}

impl Node {
    pub fn visit<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for c in &self.children {
            c.visit(f);
        }
    }
    pub fn range(&self) -> std::ops::Range<u64> {
        self.offset..self.offset + self.index.count()
    }
}

pub struct Bfs {
    pub alphabet: Vec<Op>,
    pub depth: usize,
    pub max_count: u64,
}

fn grow(op: &Op) -> u64 {
    match op {
        Op::E(n) | Op::U(n) | Op::N(n) => *n as u64,
        Op::Cm(v) => v.iter().map(grow).sum(),
        Op::Fl(o, _) => grow(o),
        _ => 0,
    }
}
pub fn size_of(ops: &[Op]) -> u64 {
    ops.iter().map(grow).sum()
}

/// Breadth first exploration of all histories; `check` runs in every reached state (after the last op)
/// and returns the canonical state. Returns one shortest history per distinct state.
pub fn bfs(ctx: &Ctx, sc: Sc, p: &Bfs, check: impl Fn(&Hist) -> R<String> + Sync) -> Vec<Hist> {
    let mut seen = BTreeSet::new();
    let mut reps = vec![];
    let root = Hist { sc, ops: vec![] };
    seen.insert("/-".to_string());
    let mut frontier = vec![root.clone()];
    reps.push(root);
    for _d in 0..p.depth {
        let mut cases = vec![];
        for h in &frontier {
            for op in &p.alphabet {
                if size_of(&h.ops) + grow(op) <= p.max_count {
                    cases.push(h.with(op.clone()));
                }
            }
        }
        if cases.is_empty() || ctx.stopped() {
            break;
        }
        let res = ctx.par(&cases, &check);
        ctx.transitions.fetch_add(
            res.iter().filter(|x| x.is_some()).count() as u64,
            std::sync::atomic::Ordering::SeqCst,
        );
        frontier = vec![];
        for (h, r) in cases.into_iter().zip(res) {
            if let Some(c) = r {
                if seen.insert(c.clone()) {
                    ctx.sample(|| format!("{} => {}", serde_json::to_string(&h.ops).unwrap(), c));
                    frontier.push(h.clone());
                    reps.push(h);
                }
            }
        }
    }
    ctx.states
        .fetch_add(seen.len() as u64, std::sync::atomic::Ordering::SeqCst);
    reps
}

/// shortest representatives of all reachable shapes
pub fn catalogue(ctx: &Ctx, sc: Sc, p: &Bfs) -> Vec<Hist> {
    bfs(ctx, sc, p, |h| World::run(h)?.canon())
}

/// every sequence of exactly `depth` operations (state-less, no merging of states)
pub fn sequences(
    sc: Sc,
    prefix: &[Op],
    alphabet: &[Op],
    depth: usize,
    max_count: u64,
) -> Vec<Hist> {
    let mut cur = vec![Hist {
        sc,
        ops: prefix.to_vec(),
    }];
    for _ in 0..depth {
        let mut next = vec![];
        for h in &cur {
            let mut any = false;
            for op in alphabet {
                if size_of(&h.ops) + grow(op) <= max_count {
                    any = true;
                    next.push(h.with(op.clone()));
                }
            }
            if !any {
                next.push(h.clone());
            }
        }
        cur = next;
    }
    cur
}
