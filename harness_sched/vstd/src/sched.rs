//! Runs threads one at a time. At every scheduling point a decision picks who goes on; decisions
//! come from a prefix (to replay and to enumerate) and then from a default or a random source.
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ready,
    Blocked(usize, bool),
    Done,
}

/// One decision: which of `n` options was taken, and what it cost.
#[derive(Clone, Debug)]
pub struct Decision {
    pub taken: usize,
    pub n: usize,
    /// the running thread could have gone on (so any other option is a preemption)
    pub could_stay: bool,
}

struct Inner {
    st: Vec<St>,
    cur: usize,
    started: bool,
    /// lock -> (writer, readers)
    locks: HashMap<usize, (Option<usize>, Vec<usize>)>,
    prefix: Vec<usize>,
    trail: Vec<Decision>,
    rng: Option<u64>,
    deadlock: bool,
    over: bool,
}

pub struct Exec {
    inner: Mutex<Inner>,
    cv: Condvar,
}

thread_local! {
    static ME: Cell<Option<usize>> = const { Cell::new(None) };
}
static CUR: Mutex<Option<Arc<Exec>>> = Mutex::new(None);

fn here() -> Option<(usize, Arc<Exec>)> {
    let me = ME.with(|m| m.get())?;
    let e = CUR.lock().unwrap().clone()?;
    Some((me, e))
}

impl Inner {
    fn free(&self, l: usize, w: bool) -> bool {
        match self.locks.get(&l) {
            None => true,
            Some((writer, readers)) => writer.is_none() && (!w || readers.is_empty()),
        }
    }
    fn enabled(&self, t: usize) -> bool {
        match &self.st[t] {
            St::Ready => true,
            St::Blocked(l, w) => self.free(*l, *w),
            St::Done => false,
        }
    }
    /// Chooses who runs next; `me` is the thread that stops here.
    fn choose(&mut self, me: usize) {
        let can_stay = me < self.st.len() && self.enabled(me);
        let mut opts: Vec<usize> = vec![];
        if can_stay {
            opts.push(me);
        }
        opts.extend((0..self.st.len()).filter(|&t| t != me && self.enabled(t)));
        if opts.is_empty() {
            if self.st.iter().any(|s| *s != St::Done) {
                self.deadlock = true;
            }
            self.over = true;
            return;
        }
        let mut k = 0;
        if opts.len() > 1 {
            let d = self.trail.len();
            k = if d < self.prefix.len() {
                self.prefix[d].min(opts.len() - 1)
            } else if let Some(r) = self.rng.as_mut() {
                *r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let x = (*r >> 33) as usize;
                // stay with the running thread half of the time
                if can_stay && x % 2 == 0 { 0 } else { (x / 2) % opts.len() }
            } else {
                0
            };
            self.trail.push(Decision { taken: k, n: opts.len(), could_stay: can_stay });
        }
        self.cur = opts[k];
    }
}

fn wait_turn(e: &Exec, me: usize, mut g: std::sync::MutexGuard<'_, Inner>) {
    e.cv.notify_all();
    while g.cur != me || !g.started || g.over {
        if g.over && g.deadlock {
            // this execution is lost; park for ever (the harness ends the process)
            drop(g);
            loop {
                std::thread::park();
            }
        }
        g = e.cv.wait(g).unwrap();
    }
}

pub fn point() {
    if let Some((me, e)) = here() {
        let mut g = e.inner.lock().unwrap();
        g.choose(me);
        wait_turn(&e, me, g);
    }
}

pub fn acquire(l: usize, w: bool) {
    if let Some((me, e)) = here() {
        let mut g = e.inner.lock().unwrap();
        g.st[me] = St::Blocked(l, w);
        g.choose(me);
        wait_turn(&e, me, g);
        let mut g = e.inner.lock().unwrap();
        // chosen, hence the lock is free
        g.st[me] = St::Ready;
        let s = g.locks.entry(l).or_default();
        if w {
            s.0 = Some(me);
        } else {
            s.1.push(me);
        }
    }
}

pub fn try_acquire(l: usize, w: bool) -> bool {
    match here() {
        Some((me, e)) => {
            point();
            let mut g = e.inner.lock().unwrap();
            if !g.free(l, w) {
                return false;
            }
            let s = g.locks.entry(l).or_default();
            if w {
                s.0 = Some(me);
            } else {
                s.1.push(me);
            }
            true
        }
        None => true,
    }
}

pub fn release(l: usize) {
    if let Some((me, e)) = here() {
        let mut g = e.inner.lock().unwrap();
        if let Some(s) = g.locks.get_mut(&l) {
            if s.0 == Some(me) {
                s.0 = None;
            } else if let Some(p) = s.1.iter().position(|&x| x == me) {
                s.1.remove(p);
            }
        }
    }
}

pub struct Outcome {
    pub trail: Vec<Decision>,
    pub deadlock: bool,
}

/// Runs the bodies as controlled threads to completion (or deadlock).
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, prefix: Vec<usize>, seed: Option<u64>) -> Outcome {
    let n = bodies.len();
    let e = Arc::new(Exec {
        inner: Mutex::new(Inner {
            st: vec![St::Ready; n],
            cur: usize::MAX,
            started: false,
            locks: HashMap::new(),
            prefix,
            trail: vec![],
            rng: seed,
            deadlock: false,
            over: false,
        }),
        cv: Condvar::new(),
    });
    *CUR.lock().unwrap() = Some(e.clone());
    let mut js = vec![];
    for (k, b) in bodies.into_iter().enumerate() {
        let e = e.clone();
        js.push(std::thread::spawn(move || {
            ME.with(|m| m.set(Some(k)));
            let g = e.inner.lock().unwrap();
            wait_turn(&e, k, g);
            b();
            ME.with(|m| m.set(None));
            let mut g = e.inner.lock().unwrap();
            g.st[k] = St::Done;
            g.choose(k);
            e.cv.notify_all();
        }));
    }
    let out = {
        let mut g = e.inner.lock().unwrap();
        g.started = true;
        g.choose(usize::MAX);
        e.cv.notify_all();
        while !g.over {
            g = e.cv.wait(g).unwrap();
        }
        Outcome { trail: g.trail.clone(), deadlock: g.deadlock }
    };
    if !out.deadlock {
        for j in js {
            let _ = j.join();
        }
    }
    *CUR.lock().unwrap() = None;
    out
}
