//! A deterministic scheduler for concurrent readers: a schedule is a list of thread numbers; at every key
//! comparison a reader waits until the head of the schedule is its own number. Entries of finished threads are
//! skipped, and an exhausted schedule lets everybody run.
use crate::tok::THREAD;
use std::sync::{Condvar, Mutex};

struct State {
    on: bool,
    order: Vec<usize>,
    pos: usize,
    done: Vec<bool>,
}
static ST: Mutex<State> = Mutex::new(State { on: false, order: Vec::new(), pos: 0, done: Vec::new() });
static CV: Condvar = Condvar::new();

fn lock() -> std::sync::MutexGuard<'static, State> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn start(order: Vec<usize>, threads: usize) {
    let mut s = lock();
    s.on = !order.is_empty();
    s.order = order;
    s.pos = 0;
    s.done = vec![false; threads];
}

pub fn stop() {
    lock().on = false;
}

fn skip_done(s: &mut State) {
    while s.pos < s.order.len() && s.done.get(s.order[s.pos]).copied().unwrap_or(true) {
        s.pos += 1;
    }
}

pub fn yield_point() {
    let me = THREAD.with(|t| t.get());
    if me == usize::MAX {
        return;
    }
    let mut s = lock();
    if !s.on {
        return;
    }
    loop {
        skip_done(&mut s);
        if s.pos >= s.order.len() {
            return;
        }
        if s.order[s.pos] == me {
            s.pos += 1;
            CV.notify_all();
            return;
        }
        s = CV.wait(s).unwrap_or_else(|e| e.into_inner());
    }
}

pub fn finished(me: usize) {
    let mut s = lock();
    if me < s.done.len() {
        s.done[me] = true;
    }
    CV.notify_all();
}
