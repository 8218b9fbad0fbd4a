//! Cooperative single-threaded scheduler with controlled poll order.
//!
//! The default order is round-robin over the woken tasks; a schedule is a set of positions at
//! which the task about to run is put to the back of the queue instead (delay bounding), so
//! enumerating all sets of up to `k` positions explores all `k`-delay schedules.
use std::{
    collections::VecDeque,
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
struct Task {
    name: &'static str,
    party: u64,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    /// The run ends when every task marked so has ended.
    main: bool,
}
thread_local!(static IDLE: std::cell::RefCell<Vec<Waker>> = const { std::cell::RefCell::new(vec![]) });
/// Resolves once no other task is runnable.
pub async fn idle() {
    let mut first = true;
    std::future::poll_fn(|cx| {
        if !std::mem::replace(&mut first, false) {
            return Poll::Ready(());
        }
        IDLE.with(|i| i.borrow_mut().push(cx.waker().clone()));
        Poll::Pending
    })
    .await
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum End {
    Done,
    /// No task is runnable; names of the unfinished main tasks.
    Deadlock(Vec<&'static str>),
    /// Step bound reached; names of the unfinished main tasks.
    Livelock(Vec<&'static str>),
}
#[derive(Default)]
pub struct Sched {
    tasks: Vec<Task>,
    pub steps: usize,
    pub order: Vec<u8>,
    /// Tasks that panicked, with the message.
    pub panics: Vec<(&'static str, String)>,
    /// Tasks dropped right before the given step.
    pub kills: Vec<(usize, &'static str)>,
}
impl Sched {
    pub fn spawn(&mut self, name: &'static str, party: u64, main: bool, f: impl Future<Output = ()> + 'static) {
        self.tasks.push(Task { name, party, fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), main });
    }
    fn left(&self) -> Vec<&'static str> {
        self.tasks.iter().filter(|t| t.main && t.fut.is_some()).map(|t| t.name).collect()
    }
    /// Runs with the given delay positions (step numbers, ascending).
    pub fn run(&mut self, delays: &[usize], max: usize) -> End {
        let mut q: VecDeque<usize> = (0..self.tasks.len()).collect();
        let mut d = 0;
        IDLE.with(|i| i.borrow_mut().clear());
        loop {
            if self.left().is_empty() {
                return End::Done;
            }
            if self.steps >= max {
                return End::Livelock(self.left());
            }
            for (at, name) in self.kills.clone() {
                if at == self.steps {
                    self.kill(name);
                    if self.left().is_empty() {
                        return End::Done;
                    }
                }
            }
            // Next woken task in queue order.
            let Some(i) = q.iter().position(|t| self.tasks[*t].fut.is_some() && self.tasks[*t].flag.0.load(SeqCst)) else {
                if let Some(w) = IDLE.with(|i| i.borrow_mut().pop()) {
                    w.wake();
                    continue;
                }
                return End::Deadlock(self.left());
            };
            let t = q.remove(i).unwrap();
            q.push_back(t);
            let n = self.steps;
            if d < delays.len() && delays[d] == n {
                d += 1;
                // Delayed: the next woken task (if any other) goes first.
                self.steps += 1;
                continue;
            }
            self.steps += 1;
            self.order.push(t as u8);
            let task = &mut self.tasks[t];
            task.flag.0.store(false, SeqCst);
            mpz::ideal_vm::INSTR.with(|i| i.borrow_mut().party = task.party);
            let w = Waker::from(task.flag.clone());
            let mut cx = Context::from_waker(&w);
            match hx_lib::catch(|| Ok(task.fut.as_mut().unwrap().as_mut().poll(&mut cx))) {
                Ok(Poll::Pending) => {}
                Ok(Poll::Ready(())) => task.fut = None,
                Err(m) => {
                    self.panics.push((task.name, m));
                    // Its resources go away like those of a thread that unwound.
                    let f = task.fut.take();
                    let _ = hx_lib::catch(move || {
                        drop(f);
                        Ok(())
                    });
                }
            }
        }
    }
    /// Drops a task (a party going away).
    pub fn kill(&mut self, name: &str) {
        for t in &mut self.tasks {
            if t.name == name {
                t.fut = None;
            }
        }
    }
}
