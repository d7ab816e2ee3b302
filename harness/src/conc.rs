//! Controlled interleaving. `Gate` stops client threads before each storage access and lets one of
//! them go at a time, as a generated schedule says. `explore` polls the futures of several clients
//! in a generated order, and makes them yield at tokio's synchronisation points.
use crate::runner::{Fail, R};
use std::cell::Cell;
use std::collections::{HashSet, VecDeque};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

// ---- threads, at system calls ----

thread_local! {
    static CLIENT: Cell<usize> = const { Cell::new(usize::MAX) };
}
static GATING: AtomicBool = AtomicBool::new(false);
static CLOCK: AtomicU64 = AtomicU64::new(0);

pub fn now() -> u64 {
    CLOCK.fetch_add(1, Ordering::SeqCst)
}

struct Ticket {
    id: u64,
    what: String,
    /// waits for a lock; the progress made when it was last refused
    blocked: Option<u64>,
}

struct G {
    root: PathBuf,
    waiting: Vec<VecDeque<Ticket>>,
    done: Vec<bool>,
    granted: HashSet<u64>,
    next: u64,
    progress: u64,
    open: bool,
    trace: Vec<String>,
}

static GATE: Mutex<Option<G>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

fn gate() -> MutexGuard<'static, Option<G>> {
    match GATE.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub fn gating() -> bool {
    GATING.load(Ordering::Relaxed) && client().is_some()
}

/// The client this thread belongs to.
pub fn client() -> Option<usize> {
    match CLIENT.try_with(|c| c.get()) {
        Ok(usize::MAX) | Err(_) => None,
        Ok(c) => Some(c),
    }
}

pub fn become_client(c: usize) {
    CLIENT.with(|x| x.set(c));
}

fn turn(what: String, blocked: bool) {
    let c = CLIENT.with(|c| c.get());
    let mut g = gate();
    let id = match g.as_mut() {
        Some(s) if !s.open => {
            let id = s.next;
            s.next += 1;
            let b = if blocked { Some(s.progress) } else { None };
            s.waiting[c].push_back(Ticket { id, what, blocked: b });
            id
        }
        _ => return,
    };
    CV.notify_all();
    loop {
        match g.as_mut() {
            Some(s) => {
                if s.open || s.granted.remove(&id) {
                    return;
                }
            }
            None => return,
        }
        g = match CV.wait(g) {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
    }
}

/// Called before an access of this thread. Returns whether it was below the root.
pub fn before(path: &[u8], what: &str, blocked: bool) -> bool {
    let rel = {
        let g = gate();
        match g.as_ref() {
            Some(s) => crate::fsim::under(&s.root, path),
            None => None,
        }
    };
    match rel {
        Some(rel) => {
            turn(format!("{} {}", what, rel), blocked);
            true
        }
        None => false,
    }
}

/// A schedule: which client goes, and for how many accesses.
pub type Schedule = Vec<(u8, u8)>;

pub struct Turns<'a> {
    s: &'a [(u8, u8)],
    i: usize,
    left: u8,
    cur: usize,
}
impl<'a> Turns<'a> {
    pub fn new(s: &'a [(u8, u8)]) -> Self {
        Turns { s, i: 0, left: 0, cur: 0 }
    }
    /// picks one of the runnable clients
    pub fn pick(&mut self, runnable: &[usize]) -> usize {
        if self.left > 0 && runnable.contains(&self.cur) {
            self.left -= 1;
            return self.cur;
        }
        if self.i < self.s.len() {
            let (c, n) = self.s[self.i];
            self.i += 1;
            self.cur = runnable[c as usize % runnable.len()];
            self.left = n;
        } else {
            // the schedule is used up: run one after the other
            self.cur = runnable[0];
            self.left = 255;
        }
        self.cur
    }
}

/// Runs the clients' scripts (one closure per operation) on their own threads. Returns the trace.
pub fn threads<F>(root: &Path, clients: Vec<Vec<F>>, schedule: &[(u8, u8)]) -> R<Vec<String>>
where
    F: FnOnce(&tokio::runtime::Runtime) + Send + 'static,
{
    threads_on(root, clients, schedule, false, false)
}

/// As above; `multi`: on multi-threaded runtimes; `locks`: clients may wait for each other in
/// memory, where it is not seen other than by their doing nothing.
pub fn threads_on<F>(root: &Path, clients: Vec<Vec<F>>, schedule: &[(u8, u8)], multi: bool, locks: bool) -> R<Vec<String>>
where
    F: FnOnce(&tokio::runtime::Runtime) + Send + 'static,
{
    let n = clients.len();
    *gate() = Some(G {
        root: root.to_path_buf(),
        waiting: (0..n).map(|_| VecDeque::new()).collect(),
        done: vec![false; n],
        granted: HashSet::new(),
        next: 0,
        progress: 0,
        open: false,
        trace: vec![],
    });
    crate::fsim::watch(true);
    GATING.store(true, Ordering::SeqCst);
    let mut joins = vec![];
    for (i, script) in clients.into_iter().enumerate() {
        joins.push(std::thread::spawn(move || {
            CLIENT.with(|c| c.set(i));
            struct Done(usize);
            impl Drop for Done {
                fn drop(&mut self) {
                    let mut g = gate();
                    if let Some(s) = g.as_mut() {
                        s.done[self.0] = true;
                    }
                    CV.notify_all();
                }
            }
            let _done = Done(i);
            let mut rt = match multi {
                false => tokio::runtime::Builder::new_current_thread(),
                true => tokio::runtime::Builder::new_multi_thread(),
            };
            if multi {
                rt.worker_threads(1);
            }
            let rt = rt.enable_all().max_blocking_threads(2).build().unwrap();
            for (k, op) in script.into_iter().enumerate() {
                turn(format!("operation {}", k), false);
                op(&rt);
            }
            rt.shutdown_background();
        }));
    }
    let mut turns = Turns::new(schedule);
    let mut failure = None;
    let mut stuck = 0;
    loop {
        let mut g = gate();
        let t0 = Instant::now();
        // until everyone has come to rest
        loop {
            let s = g.as_mut().unwrap();
            if s.granted.is_empty() && (0..n).all(|i| s.done[i] || !s.waiting[i].is_empty()) {
                break;
            }
            let before = s.progress;
            let (g2, to) = match CV.wait_timeout(g, Duration::from_millis(if locks { 25 } else { 500 })) {
                Ok(x) => x,
                Err(p) => p.into_inner(),
            };
            g = g2;
            let s = g.as_ref().unwrap();
            if locks && to.timed_out() && s.progress == before && s.granted.is_empty() && (0..n).any(|i| !s.waiting[i].is_empty()) {
                break;
            }
            if t0.elapsed() > Duration::from_secs(20) {
                failure = Some(Fail::new("hang", "a client neither finishes nor accesses storage while the others wait for their turn"));
                break;
            }
        }
        let s = g.as_mut().unwrap();
        if failure.is_some() {
            break;
        }
        if s.done.iter().all(|d| *d) {
            break;
        }
        let progress = s.progress;
        let ok = |t: &Ticket| t.blocked.map(|p| p < progress).unwrap_or(true);
        let runnable: Vec<usize> = (0..n).filter(|i| s.waiting[*i].iter().any(ok)).collect();
        if runnable.is_empty() && stuck < 5 {
            // a lock may be given up in the background
            stuck += 1;
            s.progress += 1;
            drop(g);
            std::thread::sleep(Duration::from_millis(40));
            continue;
        }
        if runnable.is_empty() {
            let w: Vec<String> = (0..n).flat_map(|i| s.waiting[i].iter().map(move |t| format!("client {}: {}", i, t.what))).collect();
            failure = Some(Fail::new("deadlock", format!("all clients wait for locks: {}", w.join("; "))));
            break;
        }
        let c = turns.pick(&runnable);
        let k = s.waiting[c].iter().position(ok).unwrap();
        let t = s.waiting[c].remove(k).unwrap();
        if t.blocked.is_none() {
            s.progress += 1;
            stuck = 0;
        }
        if s.trace.len() < 2000 {
            s.trace.push(format!("{}:{}", c, t.what));
        }
        s.granted.insert(t.id);
        drop(g);
        CV.notify_all();
    }
    if let Some(s) = gate().as_mut() {
        s.open = true;
    }
    CV.notify_all();
    let trace = gate().as_mut().map(|s| std::mem::take(&mut s.trace)).unwrap_or_default();
    let mut panicked = None;
    if failure.is_none() {
        for j in joins {
            if j.join().is_err() {
                panicked = Some(crate::runner::take_panic().unwrap_or_else(|| "panic".into()));
            }
        }
    }
    GATING.store(false, Ordering::SeqCst);
    crate::fsim::watch(false);
    *gate() = None;
    if let Some(f) = failure {
        return Err(f.ctx(format!("last accesses: {}", trace.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join(", "))));
    }
    if let Some(p) = panicked {
        return Err(Fail::new("panic", format!("panic: {}", p)));
    }
    Ok(trace)
}

// ---- tasks, at awaits ----

struct Flag {
    woken: AtomicBool,
    parent: Mutex<Option<Waker>>,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if let Some(w) = self.parent.lock().unwrap().as_ref() {
            w.wake_by_ref();
        }
    }
}

pub type Task<'a> = Pin<Box<dyn Future<Output = ()> + Send + 'a>>;

/// Polls the tasks in the order of the schedule. The second number of an entry says after how many
/// of tokio's synchronisation points the task yields.
pub async fn explore(tasks: Vec<Task<'_>>, schedule: &[(u8, u8)], patience: Duration) -> R<u64> {
    explore_cancel(tasks, schedule, patience, &[]).await
}

/// As above; `cancel` lists (task, polls): the task is dropped after that many polls.
pub async fn explore_cancel(tasks: Vec<Task<'_>>, schedule: &[(u8, u8)], patience: Duration, cancel: &[(usize, u32)]) -> R<u64> {
    let mut tasks: Vec<Option<Task>> = tasks.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> = tasks.iter().map(|_| Arc::new(Flag { woken: AtomicBool::new(true), parent: Mutex::new(None) })).collect();
    let mut polls = 0u64;
    let mut polled = vec![0u32; tasks.len()];
    let mut i = 0usize;
    let f = std::future::poll_fn(|cx: &mut Context<'_>| {
        for f in flags.iter() {
            *f.parent.lock().unwrap() = Some(cx.waker().clone());
        }
        for (t, n) in cancel {
            if *t < tasks.len() && polled[*t] >= *n {
                tasks[*t] = None;
            }
        }
        if tasks.iter().all(|t| t.is_none()) {
            return Poll::Ready(());
        }
        let ready: Vec<usize> = (0..tasks.len()).filter(|k| tasks[*k].is_some() && flags[*k].woken.load(Ordering::SeqCst)).collect();
        if ready.is_empty() {
            return Poll::Pending;
        }
        let (c, k) = if schedule.is_empty() { (0, 255) } else { schedule[i % schedule.len()] };
        // later rounds through the schedule differ from the first
        let c = c as usize + i / schedule.len().max(1);
        i += 1;
        let t = ready[c % ready.len()];
        // leave as much of the budget as the schedule says
        let leave = if i > 4000 { 128 } else { k as u32 % 128 + 1 };
        for _ in leave..128 {
            match tokio::task::coop::poll_proceed(cx) {
                Poll::Ready(r) => r.made_progress(),
                Poll::Pending => break,
            }
        }
        flags[t].woken.store(false, Ordering::SeqCst);
        let w: Waker = flags[t].clone().into();
        let mut cx2 = Context::from_waker(&w);
        polls += 1;
        polled[t] += 1;
        if tasks[t].as_mut().unwrap().as_mut().poll(&mut cx2).is_ready() {
            tasks[t] = None;
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    });
    match tokio::time::timeout(patience, f).await {
        Ok(()) => Ok(polls),
        Err(_) => Err(Fail::new("hang", format!("clients wait forever: {:?} have not finished", (0..tasks.len()).filter(|t| tasks[*t].is_some()).collect::<Vec<_>>()))),
    }
}

/// Yields once.
pub async fn pause() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
