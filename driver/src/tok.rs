//! Tracked objects: every construction, clone and drop is recorded in a registry, so that leaks, double
//! drops and uses of dropped or never initialised objects are observable as data.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

pub const KEY: usize = 0;
pub const VAL: usize = 1;
pub const AUG: usize = 2;

const MAGIC: u64 = 0x5eed_ba5e_0b5e_55ed;

#[derive(Default)]
pub struct Registry {
    alive: Vec<bool>,
    live: [i64; 3],
    errors: i64,
    dropped_vals: Vec<i64>,
}

static REG: Mutex<Registry> = Mutex::new(Registry { alive: Vec::new(), live: [0; 3], errors: 0, dropped_vals: Vec::new() });
fn reg<R>(f: impl FnOnce(&mut Registry) -> R) -> R {
    f(&mut REG.lock().unwrap_or_else(|e| e.into_inner()))
}

/// errors, live keys, live values, live augmentations; and the payloads of values dropped since the last call
pub fn report() -> (Vec<i64>, Vec<i64>) {
    reg(|r| {
        let mut d = std::mem::take(&mut r.dropped_vals);
        d.sort();
        (vec![r.errors, r.live[0], r.live[1], r.live[2]], d)
    })
}

pub struct Tok<const CLASS: usize> {
    magic: u64,
    uid: usize,
    pub pay: i64,
}

impl<const C: usize> Tok<C> {
    pub fn new(pay: i64) -> Self {
        reg(|r| {
            r.alive.push(true);
            r.live[C] += 1;
            Tok { magic: MAGIC ^ C as u64, uid: r.alive.len() - 1, pay }
        })
    }
    /// must be alive
    pub fn check(&self) {
        reg(|r| {
            if self.magic != MAGIC ^ C as u64 || self.uid >= r.alive.len() || !r.alive[self.uid] {
                r.errors += 1;
            }
        })
    }
}
impl<const C: usize> Clone for Tok<C> {
    fn clone(&self) -> Self {
        self.check();
        user_code();
        Tok::new(self.pay)
    }
}
impl<const C: usize> Drop for Tok<C> {
    fn drop(&mut self) {
        reg(|r| {
            if self.magic != MAGIC ^ C as u64 || self.uid >= r.alive.len() || !r.alive[self.uid] {
                r.errors += 1;
                return;
            }
            r.alive[self.uid] = false;
            r.live[C] -= 1;
            if C == VAL {
                r.dropped_vals.push(self.pay);
            }
        })
    }
}

/// number of clones (and elements handed out by the user's iterator) left until one panics, 0 when disarmed
pub static CLONE_FUSE: AtomicI64 = AtomicI64::new(0);

pub fn user_code() {
    if CLONE_FUSE.load(SeqCst) > 0 && CLONE_FUSE.fetch_sub(1, SeqCst) == 1 {
        std::panic::panic_any(Fused);
    }
}

// ---- comparisons: a fuse that panics, and points at which a scheduled thread waits for its turn

/// number of comparisons left until one panics, 0 when disarmed
pub static FUSE: AtomicI64 = AtomicI64::new(0);
pub struct Fused;

thread_local! { pub static THREAD: Cell<usize> = const { Cell::new(usize::MAX) }; }

fn compare_hook() {
    if FUSE.load(SeqCst) > 0 && FUSE.fetch_sub(1, SeqCst) == 1 {
        std::panic::panic_any(Fused);
    }
    crate::sched::yield_point();
}

/// state of the generator that decides how comparisons answer, 0 for truthfully
pub static WILD: AtomicU64 = AtomicU64::new(0);
/// comparisons in a hundred episodes that lie
pub static LIES: AtomicU64 = AtomicU64::new(0);

fn roll(below: u64) -> u64 {
    let x = WILD.load(SeqCst).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
    WILD.store(x, SeqCst);
    (x >> 33) % below
}

/// comparisons that break every promise an ordering makes: episodes of truth, of one constant answer, of reversal, of chance
fn wild(honest: std::cmp::Ordering) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    static EPISODE: AtomicU64 = AtomicU64::new(0);
    if WILD.load(SeqCst) == 0 {
        return honest;
    }
    let mut e = EPISODE.load(SeqCst);
    if e < 16 {
        // kind of the new episode, and how many comparisons it lasts
        let kind = if roll(100) < LIES.load(SeqCst) { 1 + roll(6) } else { 0 };
        e = kind + 16 * [1, 4, 12, 40][roll(4) as usize];
    } else {
        e -= 16;
    }
    EPISODE.store(e, SeqCst);
    match e % 16 {
        0 => honest,
        1 => Less,
        2 => Greater,
        3 => honest.reverse(),
        4 => [Less, Greater][roll(2) as usize],
        5 => [Less, Greater, Less, Greater, Equal][roll(5) as usize],
        _ => [honest, honest, honest, Equal][roll(4) as usize],
    }
}

impl<const C: usize> PartialEq for Tok<C> {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl<const C: usize> Eq for Tok<C> {}
impl<const C: usize> PartialOrd for Tok<C> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const C: usize> Ord for Tok<C> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.check();
        o.check();
        compare_hook();
        wild(self.pay.cmp(&o.pay))
    }
}

/// A key whose only speciality is that comparisons are scheduling points
#[derive(Clone, Debug)]
pub struct Yk(pub i64);
impl PartialEq for Yk {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o).is_eq()
    }
}
impl Eq for Yk {}
impl PartialOrd for Yk {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Yk {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        crate::sched::yield_point();
        self.0.cmp(&o.0)
    }
}
