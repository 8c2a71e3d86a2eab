//! The asynchronous side: a device whose reads complete at simulated times, and
//! a single-threaded executor that decides every poll.
use crate::sim::*;
use crate::tape::Lane;
use futures::io::AsyncRead;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::io::{self, Read};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

enum Event {
    Dev(Rc<RefCell<DevState>>),
    Timer(Waker),
}
pub struct World {
    pub now: u64,
    /// polls that are enough for any client
    pub polls: u64,
    seq: u64,
    queue: BTreeMap<(u64, u64), Event>,
}
pub type WorldRef = Rc<RefCell<World>>;
pub fn world() -> WorldRef {
    Rc::new(RefCell::new(World { now: 0, polls: 2_000_000, seq: 0, queue: BTreeMap::new() }))
}
impl World {
    fn at(&mut self, t: u64, e: Event) {
        self.seq += 1;
        self.queue.insert((t, self.seq), e);
    }
}

#[derive(Default)]
pub struct DevState {
    ready_at: Option<u64>,
    waker: Option<Waker>,
}

pub struct SimAsync {
    pub dev: SimDevice,
    st: Rc<RefCell<DevState>>,
    w: WorldRef,
    /// probability of a pending read, in 1/64ths; and the largest latency
    pub pend: u64,
    pub lat: u64,
}
impl SimAsync {
    pub fn new(dev: SimDevice, w: &WorldRef, pend: u64, lat: u64) -> Self {
        SimAsync { dev, st: Rc::new(RefCell::new(DevState::default())), w: w.clone(), pend, lat }
    }
}
impl fmt::Debug for SimAsync {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimAsync({:?})", self.dev)
    }
}
impl AsyncRead for SimAsync {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let s = &mut *self;
        let mut st = s.st.borrow_mut();
        let mut w = s.w.borrow_mut();
        match st.ready_at {
            Some(t) if w.now < t => {
                st.waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Some(_) => {
                st.ready_at = None;
                st.waker = None;
            }
            None => {
                let mut c = s.dev.ctl.borrow_mut();
                if s.pend > 0 && { let p = s.pend; c.lane.chance(p, 64) } {
                    let l = 1 + { let m = s.lat; c.lane.below(m) };
                    c.stats.add("fault_pending", 1);
                    let t = w.now + l;
                    c.ev(3, s.dev.id, t);
                    let (id, pos) = (s.dev.id, s.dev.pos);
                    c.note(|| format!("dev{id} read @{pos} pending until t={t}"));
                    st.ready_at = Some(t);
                    st.waker = Some(cx.waker().clone());
                    w.at(t, Event::Dev(s.st.clone()));
                    return Poll::Pending;
                }
            }
        }
        drop(st);
        drop(w);
        Poll::Ready(s.dev.read(buf))
    }
}

/// A simulated timer.
pub struct Timer {
    w: WorldRef,
    deadline: u64,
}
impl Timer {
    pub fn after(w: &WorldRef, d: u64) -> Self {
        let deadline = w.borrow().now + d;
        Timer { w: w.clone(), deadline }
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut w = self.w.borrow_mut();
        if w.now >= self.deadline {
            return Poll::Ready(());
        }
        let t = self.deadline;
        w.at(t, Event::Timer(cx.waker().clone()));
        Poll::Pending
    }
}

/// Gives up on `fut` when the timer fires first (and then drops it).
pub async fn timeout<F: Future + Unpin>(w: &WorldRef, d: u64, fut: F) -> Option<F::Output> {
    let t = Timer::after(w, d);
    match futures::future::select(fut, t).await {
        futures::future::Either::Left((v, _)) => Some(v),
        futures::future::Either::Right(_) => None,
    }
}

struct TaskWake {
    cur: AtomicU64,
    woken: AtomicBool,
}
struct PollWaker {
    t: Arc<TaskWake>,
    id: u64,
}
impl Wake for PollWaker {
    fn wake(self: Arc<Self>) {
        // only the waker of the latest poll is owed a wake-up
        if self.t.cur.load(SeqCst) == self.id {
            self.t.woken.store(true, SeqCst);
        }
    }
}

pub type Task = Pin<Box<dyn Future<Output = Check>>>;

/// Run the tasks to completion under a schedule drawn from the device lane.
pub fn execute(ctl: &CtlRef, w: &WorldRef, mut tasks: Vec<Task>, spurious: u64) -> (Check, u64) {
    let n = tasks.len();
    let wakes: Vec<Arc<TaskWake>> = (0..n).map(|_| Arc::new(TaskWake { cur: AtomicU64::new(0), woken: AtomicBool::new(true) })).collect();
    let mut done = vec![false; n];
    let mut polls = 0u64;
    let mut id = 0u64;
    loop {
        if done.iter().all(|d| *d) {
            return (Ok(()), polls);
        }
        polls += 1;
        if polls > w.borrow().polls {
            return (viol("async-livelock", "the tasks did not finish within the poll budget"), polls);
        }
        let ready: Vec<usize> = (0..n).filter(|i| !done[*i] && wakes[*i].woken.load(SeqCst)).collect();
        let live: Vec<usize> = (0..n).filter(|i| !done[*i]).collect();
        let choice = {
            let mut c = ctl.borrow_mut();
            let l: &mut Lane = &mut c.lane;
            if !ready.is_empty() && !(spurious > 0 && !w.borrow().queue.is_empty() && l.chance(1, 16)) {
                Some(ready[l.us(ready.len())])
            } else if spurious > 0 && l.chance(spurious, 64) {
                let k = live[l.us(live.len())];
                c.stats.add("fault_spurious_poll", 1);
                Some(k)
            } else {
                None
            }
        };
        match choice {
            Some(k) => {
                id += 1;
                wakes[k].cur.store(id, SeqCst);
                wakes[k].woken.store(false, SeqCst);
                ctl.borrow_mut().ev(4, k as u64, 0);
                let wk = Waker::from(Arc::new(PollWaker { t: wakes[k].clone(), id }));
                let mut cx = Context::from_waker(&wk);
                match tasks[k].as_mut().poll(&mut cx) {
                    Poll::Pending => {}
                    Poll::Ready(Ok(())) => done[k] = true,
                    Poll::Ready(Err(v)) => return (Err(v), polls),
                }
            }
            None => {
                let e = w.borrow_mut().queue.pop_first();
                match e {
                    Some(((t, _), e)) => {
                        {
                            let mut w = w.borrow_mut();
                            w.now = w.now.max(t);
                        }
                        match e {
                            Event::Dev(d) => {
                                let wk = d.borrow_mut().waker.take();
                                if let Some(wk) = wk {
                                    wk.wake();
                                }
                            }
                            Event::Timer(wk) => wk.wake(),
                        }
                    }
                    None => {
                        if (0..n).any(|i| !done[i] && wakes[i].woken.load(SeqCst)) {
                            continue;
                        }
                        return (viol("lost-wakeup", "every task is pending and nothing will ever wake one"), polls);
                    }
                }
            }
        }
    }
}
