//! A controlled scheduler for real threads: exactly one registered thread runs at a time, and every
//! scheduling point is a choice taken from a given prefix (then: continue with the running thread).
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    /// waits for a wake-up of this address
    Blocked(usize),
    /// runs without the baton (is stuck in something the scheduler does not control)
    External,
    Done,
}

/// one decision: how many alternatives there were, which was taken, and whether alternatives other
/// than 0 are preemptions
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub n: u8,
    pub taken: u8,
    pub preemptive: bool,
}

struct S {
    st: Vec<St>,
    cur: usize,
    prefix: Vec<u8>,
    trace: Vec<Choice>,
    bound: usize,
    preemptions: usize,
    steps: u64,
    clock: u64,
    started: usize,
    deadlock: bool,
    diverged: bool,
    external: u64,
}

pub struct Exec {
    m: Mutex<S>,
    cv: Vec<Condvar>,
    done: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Exec>, usize)>> = RefCell::new(None);
}

pub struct Outcome {
    pub trace: Vec<Choice>,
    pub deadlock: bool,
    pub diverged: bool,
    pub external: u64,
    pub steps: u64,
    pub preemptions: usize,
}

fn me() -> Option<(Arc<Exec>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

pub fn controlled() -> bool {
    ME.try_with(|m| m.borrow().is_some()).unwrap_or(false)
}

impl S {
    /// picks the next thread to run; `me` is the thread giving up the baton if it could continue
    fn pick(&mut self, me: Option<usize>) -> Option<usize> {
        let mut c: Vec<usize> = vec![];
        if let Some(me) = me {
            c.push(me);
        }
        if me.is_none() || self.preemptions < self.bound {
            for (i, s) in self.st.iter().enumerate() {
                if Some(i) != me && *s == St::Ready {
                    c.push(i);
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let mut k = 0;
        if c.len() > 1 {
            let pos = self.trace.len();
            if pos < self.prefix.len() {
                k = self.prefix[pos] as usize;
                if k >= c.len() {
                    self.diverged = true;
                    k = 0;
                }
            }
            self.trace.push(Choice {
                n: c.len() as u8,
                taken: k as u8,
                preemptive: me.is_some(),
            });
            if me.is_some() && k != 0 {
                self.preemptions += 1;
            }
        }
        Some(c[k])
    }
}

impl Exec {
    fn pass(&self, s: &mut S, to: usize) {
        s.cur = to;
        self.cv[to].notify_one();
    }
    fn wait_turn<'a>(
        &'a self,
        mut g: std::sync::MutexGuard<'a, S>,
        id: usize,
    ) -> std::sync::MutexGuard<'a, S> {
        while g.cur != id && !g.deadlock {
            g = self.cv[id].wait(g).unwrap();
        }
        g
    }
    /// returns from an uncontrolled stretch
    fn rejoin(&self, s: &mut S, id: usize) {
        if s.st[id] == St::External {
            s.st[id] = St::Ready;
            let busy = s.cur < s.st.len() && s.st[s.cur] == St::Ready && s.cur != id;
            if !busy {
                s.cur = id;
            }
        }
    }
}

/// A place where the scheduler may switch to another thread.
pub fn point() {
    let Some((e, id)) = me() else { return };
    let mut g = e.m.lock().unwrap();
    if g.deadlock {
        return;
    }
    g.steps += 1;
    if g.st[id] == St::External {
        e.rejoin(&mut g, id);
        drop(e.wait_turn(g, id));
        return;
    }
    let next = g.pick(Some(id)).unwrap();
    if next != id {
        e.pass(&mut g, next);
        drop(e.wait_turn(g, id));
    }
}

/// Parks the running thread until `wake(addr)`; false if the thread is not controlled.
pub fn block(addr: usize) -> bool {
    let Some((e, id)) = me() else { return false };
    let mut g = e.m.lock().unwrap();
    if g.deadlock {
        drop(g);
        panic!("deadlock");
    }
    g.steps += 1;
    if g.st[id] == St::External {
        e.rejoin(&mut g, id);
        g = e.wait_turn(g, id);
        drop(g);
        return true;
    }
    g.st[id] = St::Blocked(addr);
    match g.pick(None) {
        Some(n) => e.pass(&mut g, n),
        None => {
            if g.st.iter().any(|s| *s == St::External) {
                g.cur = usize::MAX;
            } else {
                g.deadlock = true;
                for c in &e.cv {
                    c.notify_all();
                }
            }
        }
    }
    g = e.wait_turn(g, id);
    g.st[id] = St::Ready;
    let dead = g.deadlock;
    drop(g);
    if dead {
        panic!("deadlock");
    }
    true
}

pub fn wake(addr: usize) {
    let Some((e, _)) = me() else { return };
    let mut g = e.m.lock().unwrap();
    for s in g.st.iter_mut() {
        if *s == St::Blocked(addr) {
            *s = St::Ready;
        }
    }
    // nobody holds the baton
    if g.cur == usize::MAX {
        if let Some(n) = g.pick(None) {
            e.pass(&mut g, n);
        }
    }
}

/// wakes at most one (the first) waiter
pub fn wake_one(addr: usize) {
    let Some((e, _)) = me() else { return };
    let mut g = e.m.lock().unwrap();
    if let Some(s) = g.st.iter_mut().find(|s| **s == St::Blocked(addr)) {
        *s = St::Ready;
    }
}

/// A logical clock, for the order of operations.
pub fn tick() -> u64 {
    match me() {
        Some((e, _)) => {
            let mut g = e.m.lock().unwrap();
            g.clock += 1;
            g.clock
        }
        None => 0,
    }
}

struct Leave(Arc<Exec>, usize);
impl Drop for Leave {
    fn drop(&mut self) {
        let _ = ME.try_with(|m| *m.borrow_mut() = None);
        let e = &self.0;
        let mut g = e.m.lock().unwrap();
        let held = g.cur == self.1;
        g.st[self.1] = St::Done;
        g.steps += 1;
        if held || g.cur == usize::MAX {
            match g.pick(None) {
                Some(n) => e.pass(&mut g, n),
                None => {
                    g.cur = usize::MAX;
                    if g.st.iter().any(|s| matches!(s, St::Blocked(_)))
                        && !g.st.iter().any(|s| *s == St::External)
                    {
                        g.deadlock = true;
                        for c in &e.cv {
                            c.notify_all();
                        }
                    }
                }
            }
        }
        if g.st.iter().all(|s| *s == St::Done) {
            e.done.notify_all();
        }
    }
}

type Job = Box<dyn FnOnce() + Send>;
thread_local! {
    /// threads are kept for the next schedule
    static POOL: RefCell<Vec<std::sync::mpsc::Sender<Job>>> = RefCell::new(vec![]);
}
fn submit(k: usize, job: Job) {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() <= k {
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    while let Ok(j) = rx.recv() {
                        j()
                    }
                })
                .expect("spawn");
            p.push(tx);
        }
        p[k].send(job).expect("pool thread");
    })
}

/// Runs the bodies as controlled threads under the schedule given by `prefix`.
pub fn run<T: Send + 'static>(
    prefix: &[u8],
    bound: usize,
    bodies: Vec<Box<dyn FnOnce() -> T + Send>>,
) -> (Vec<std::thread::Result<T>>, Outcome) {
    let n = bodies.len();
    let e = Arc::new(Exec {
        m: Mutex::new(S {
            st: vec![St::Ready; n],
            cur: usize::MAX,
            prefix: prefix.to_vec(),
            trace: vec![],
            bound,
            preemptions: 0,
            steps: 0,
            clock: 0,
            started: 0,
            deadlock: false,
            diverged: false,
            external: 0,
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        done: Condvar::new(),
    });
    let res: Arc<Mutex<Vec<Option<std::thread::Result<T>>>>> =
        Arc::new(Mutex::new((0..n).map(|_| None).collect()));
    for (id, b) in bodies.into_iter().enumerate() {
        let e = e.clone();
        let res = res.clone();
        submit(
            id,
            Box::new(move || {
                ME.with(|m| *m.borrow_mut() = Some((e.clone(), id)));
                let leave = Leave(e.clone(), id);
                {
                    let mut g = e.m.lock().unwrap();
                    g.started += 1;
                    if g.started == g.st.len() {
                        let first = g.pick(None).unwrap();
                        e.pass(&mut g, first);
                    }
                    drop(e.wait_turn(g, id));
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                res.lock().unwrap()[id] = Some(r);
                drop(leave);
            }),
        );
    }
    // watch for threads that got stuck outside of the scheduler's control
    {
        let mut g = e.m.lock().unwrap();
        let mut last = (g.steps, Instant::now());
        while g.st.iter().any(|s| *s != St::Done) {
            g = e.done.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
            if g.steps != last.0 {
                last = (g.steps, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(2) && g.started == n {
                let cur = g.cur;
                if cur < n && g.st[cur] == St::Ready {
                    g.st[cur] = St::External;
                    g.external += 1;
                    match g.pick(None) {
                        Some(k) => e.pass(&mut g, k),
                        None => g.cur = usize::MAX,
                    }
                }
                last = (g.steps, Instant::now());
            }
        }
    }
    let res = res
        .lock()
        .unwrap()
        .iter_mut()
        .map(|x| x.take().expect("result"))
        .collect();
    let g = e.m.lock().unwrap();
    let out = Outcome {
        trace: g.trace.clone(),
        deadlock: g.deadlock,
        diverged: g.diverged,
        external: g.external,
        steps: g.steps,
        preemptions: g.preemptions,
    };
    drop(g);
    (res, out)
}

/// The next schedule in depth-first order, or None when all have been explored.
pub fn next_prefix(trace: &[Choice]) -> Option<Vec<u8>> {
    let mut t: Vec<Choice> = trace.to_vec();
    while let Some(c) = t.pop() {
        if c.taken + 1 < c.n {
            let mut p: Vec<u8> = t.iter().map(|c| c.taken).collect();
            p.push(c.taken + 1);
            return Some(p);
        }
    }
    None
}
