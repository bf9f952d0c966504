//! Interpreter of operation programs against the real collections.
//!
//! Input: a header line `init key=i val=i aug=count u=20 grp=1,1,2,..` and one operation per line.
//! Output: one JSON object per operation, written before the next one starts, so that a crash or a hang
//! is attributable. The meaning of every operation is the action of the same name in spec/SweepAPI.tla.
mod augs;
mod its;
mod sched;
mod shape;
mod tok;

use augs::*;
use its::*;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::GroupCount;
use sweep_bptree::tree::Cursor;
use sweep_bptree::{BPlusTree, BPlusTreeMap, BPlusTreeSet, NodeStoreVec};

pub type Map<K, V, A> = BPlusTreeMap<<K as KC>::K, <V as VC>::V, A>;
pub type Set<K> = BPlusTreeSet<<K as KC>::K>;
pub type Tree<K, V, A> = BPlusTree<NodeStoreVec<<K as KC>::K, <V as VC>::V, A>>;

pub enum H<K: KC, V: VC, A: DA<K, V>> {
    Map(Map<K, V, A>),
    Set(Set<K>),
    Tree(Tree<K, V, A>),
}

type Curs<K> = BTreeMap<i64, Cursor<<K as KC>::K>>;

/// result of an operation: numbers, and possibly further JSON members
#[derive(Default)]
pub struct Out {
    pub r: Vec<i64>,
    pub extra: String,
}
impl From<Vec<i64>> for Out {
    fn from(r: Vec<i64>) -> Self {
        Out { r, extra: String::new() }
    }
}

pub fn js(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += &x.to_string();
    }
    s.push(']');
    s
}
pub fn jss(v: &[Vec<i64>]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn opt<T: Num>(v: Option<&T>) -> Vec<i64> {
    v.map(|v| vec![v.num()]).unwrap_or_default()
}
fn optowned<T: Num>(v: Option<T>) -> Vec<i64> {
    v.map(|v| vec![v.num()]).unwrap_or_default()
}
fn kv<K: Num, V: Num>(e: Option<(&K, &V)>) -> Vec<i64> {
    e.map(|(k, v)| vec![k.num(), v.num()]).unwrap_or_default()
}
fn flag(b: bool) -> Vec<i64> {
    vec![b as i64]
}

/// one of map and tree, which share this operation
macro_rules! mt {
    ($h:expr, $op:expr, $x:ident => $e:expr) => {
        match $h {
            H::Map($x) => $e,
            H::Tree($x) => $e,
            H::Set(_) => unsupported($op),
        }
    };
}
macro_rules! any {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::Map($x) => $e,
            H::Tree($x) => $e,
            H::Set($x) => $e,
        }
    };
}
macro_rules! only {
    ($kind:ident, $h:expr, $op:expr, $x:ident => $e:expr) => {
        match $h {
            H::$kind($x) => $e,
            _ => unsupported($op),
        }
    };
}

/// lo, n, step, ..
fn terms(a: &[i64]) -> impl Iterator<Item = i64> {
    let (lo, n, step) = (a[0], a[1], a[2]);
    (0..n).map(move |j| lo + j * step)
}
const MP: i64 = 1000003;
fn mix(acc: i64, x: i64) -> i64 {
    (acc * 31 + x) % MP
}

const READS: &[&str] = &[
    "get", "member", "least", "greatest", "sleast", "sgreatest", "len", "isempty", "collect", "collectrev", "root", "at", "rank", "gat",
    "gsize", "grank", "find", "foldrank", "cfirst", "cfirstp", "clast", "cget", "cnext", "cnextp", "cprev", "cprevp", "ccopy", "ckey",
    "cval", "cexists", "shape", "visit", "stat", "probe", "ats", "ranks", "cwalk",
];

/// operations that leave every collection alone
fn read<'h, K: KC, V: VC, A: DA<K, V>>(get: &dyn Fn(i64) -> &'h H<K, V, A>, curs: &mut Curs<K>, op: &str, a: &[i64]) -> Out {
    let setcur = |curs: &mut Curs<K>, c: i64, x: Option<Cursor<K::K>>| match x {
        Some(x) => {
            curs.insert(c, x);
        }
        None => {
            curs.remove(&c);
        }
    };
    // the cursor may not exist, when an earlier call unexpectedly found nothing
    let needs = match op {
        "ccopy" | "ckey" => Some(a[0]),
        "cnext" | "cnextp" | "cprev" | "cprevp" | "cval" | "cexists" | "cwalk" => Some(a[1]),
        _ => None,
    };
    if needs.is_some_and(|c| !curs.contains_key(&c)) {
        return Out { r: vec![], extra: ",\"f\":\"lost\"".into() };
    }
    // cursor operations first: `h` is not always the first argument
    match op {
        "ccopy" => {
            let x = curs.get(&a[0]).unwrap().clone();
            let r = vec![x.key().num()];
            curs.insert(a[1], x);
            return r.into();
        }
        "ckey" => return vec![curs.get(&a[0]).unwrap().key().num()].into(),
        _ => {}
    }
    let h = get(a[0]);
    let r: Vec<i64> = match op {
        "get" => mt!(h, op, x => K::with_q(a[1], |q| opt(x.get(q)))),
        "member" => match h {
            H::Set(s) => K::with_q(a[1], |q| flag(s.contains(q))),
            H::Map(m) => K::with_q(a[1], |q| flag(m.get(q).is_some())),
            H::Tree(m) => K::with_q(a[1], |q| flag(m.get(q).is_some())),
        },
        "least" => only!(Tree, h, op, t => kv(t.first())),
        "greatest" => only!(Tree, h, op, t => kv(t.last())),
        "sleast" => only!(Set, h, op, t => opt(t.first())),
        "sgreatest" => only!(Set, h, op, t => opt(t.last())),
        "len" => vec![any!(h, x => x.len()) as i64],
        "isempty" => flag(any!(h, x => x.is_empty())),
        "collect" => match h {
            H::Set(s) => s.iter().flat_map(|k| [k.num(), 1]).collect(),
            H::Map(m) => m.iter().flat_map(|(k, v)| [k.num(), v.num()]).collect(),
            H::Tree(m) => m.iter().flat_map(|(k, v)| [k.num(), v.num()]).collect(),
        },
        "collectrev" => match h {
            H::Set(s) => s.iter().rev().flat_map(|k| [k.num(), 1]).collect(),
            H::Map(m) => m.iter().rev().flat_map(|(k, v)| [k.num(), v.num()]).collect(),
            H::Tree(m) => m.iter().rev().flat_map(|(k, v)| [k.num(), v.num()]).collect(),
        },
        "root" => mt!(h, op, x => x.root_augmentation().show()),
        "find" => {
            return mt!(h, op, x => compared::<K, V, A, _>(x, |h| A::find(h, &a[1..]), |r| r.first().map(|k| K::mk(*k))))
        }
        "foldrank" => {
            let k = K::mk(a[1]);
            return mt!(h, op, x => compared::<K, V, A, _>(x, |h| A::rank(h, &k), |_| Some(k.clone())))
        }
        "at" | "gat" => mt!(h, op, x => A::find(x, &a[1..])),
        "rank" | "grank" => {
            let k = K::mk(a[1]);
            mt!(h, op, x => A::rank(x, &k))
        }
        "gsize" => mt!(h, op, x => A::group_size(x, a[1])),
        "cfirst" => only!(Tree, h, op, t => {
            let x = Cursor::first(t);
            let r = x.as_ref().map(|(c, v)| vec![c.key().num(), v.num()]).unwrap_or_default();
            setcur(curs, a[1], x.map(|x| x.0));
            r
        }),
        "cfirstp" => only!(Tree, h, op, t => {
            let x = t.cursor_first();
            let r = x.as_ref().map(|c| vec![c.key().num()]).unwrap_or_default();
            setcur(curs, a[1], x);
            r
        }),
        "clast" => only!(Tree, h, op, t => {
            let x = Cursor::last(t);
            let r = x.as_ref().map(|(c, v)| vec![c.key().num(), v.num()]).unwrap_or_default();
            setcur(curs, a[1], x.map(|x| x.0));
            r
        }),
        "cget" => only!(Tree, h, op, t => {
            let k = K::mk(a[2]);
            match t.get_cursor(&k) {
                Some((c, v)) => {
                    let mut r = opt(v);
                    if c.key().num() != a[2] {
                        r.push(-2);
                    }
                    curs.insert(a[1], c);
                    r
                }
                None => {
                    curs.remove(&a[1]);
                    vec![-3]
                }
            }
        }),
        "cnext" | "cprev" => only!(Tree, h, op, t => {
            let c = curs.get(&a[1]).unwrap();
            let x = if op == "cnext" { c.next_with_value(t) } else { c.prev_with_value(t) };
            let r = x.as_ref().map(|(c, v)| vec![c.key().num(), v.num()]).unwrap_or_default();
            let x = x.map(|x| x.0);
            setcur(curs, a[2], x);
            r
        }),
        "cnextp" | "cprevp" => only!(Tree, h, op, t => {
            let c = curs.get(&a[1]).unwrap();
            let x = if op == "cnextp" { c.next(t) } else { c.prev(t) };
            let r = x.as_ref().map(|c| vec![c.key().num()]).unwrap_or_default();
            setcur(curs, a[2], x);
            r
        }),
        "cval" => only!(Tree, h, op, t => opt(curs.get(&a[1]).unwrap().value(t))),
        "cexists" => only!(Tree, h, op, t => flag(curs.get(&a[1]).unwrap().exists(t))),
        "probe" => {
            let mut n = 0;
            let acc = terms(&a[1..]).fold(0, |acc, k| {
                let v = match h {
                    H::Set(s) => K::with_q(k, |q| s.contains(q)) as i64,
                    H::Map(m) => K::with_q(k, |q| m.get(q).map_or(0, |v| v.num())),
                    H::Tree(m) => K::with_q(k, |q| m.get(q).map_or(0, |v| v.num())),
                };
                n += (v != 0) as i64;
                mix(acc, v)
            });
            vec![n, acc]
        }
        "ats" => mt!(h, op, x => {
            let mut n = 0;
            let acc = terms(&a[1..]).fold(0, |acc, i| match A::find(x, &[i])[..] {
                [k, v] => {
                    n += 1;
                    mix(acc, k * 7 + v)
                }
                _ => mix(acc, 0),
            });
            vec![n, acc]
        }),
        "ranks" => mt!(h, op, x => {
            let mut n = 0;
            let acc = terms(&a[1..]).fold(0, |acc, k| {
                let r = A::rank(x, &K::mk(k));
                n += r[0];
                mix(acc, r[1])
            });
            vec![n, acc]
        }),
        "cwalk" => only!(Tree, h, op, t => {
            let mut c = curs.get(&a[1]).unwrap().clone();
            let (mut n, mut acc) = (0, 0);
            while n < a[2] {
                let x = if a[3] == 1 { c.next_with_value(t) } else { c.prev_with_value(t) };
                let Some((d, v)) = x else { break };
                acc = mix(acc, d.key().num() * 7 + v.num());
                n += 1;
                c = d;
            }
            curs.insert(a[1], c);
            vec![n, acc]
        }),
        "shape" => return mt!(h, op, x => shape::shape::<K, V, A, _>(x)),
        "visit" => return mt!(h, op, x => shape::visit::<K, V, A, _>(x, a)),
        "stat" => only!(Tree, h, op, t => {
            // only for reporting: numbers in the debug output
            format!("{:?}", t.statistic()).split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect()
        }),
        _ => unsupported(op),
    };
    r.into()
}

struct Driver<K: KC, V: VC, A: DA<K, V>> {
    colls: BTreeMap<i64, *mut H<K, V, A>>,
    curs: Curs<K>,
    its: BTreeMap<i64, Box<dyn DynIt>>,
}

impl<K: KC, V: VC, A: DA<K, V>> Driver<K, V, A> {
    fn new() -> Self {
        Driver { colls: BTreeMap::new(), curs: BTreeMap::new(), its: BTreeMap::new() }
    }
    /// iterators borrow the collections; the programs never modify a borrowed one
    fn h(&self, i: i64) -> &'static H<K, V, A> {
        unsafe { &**self.colls.get(&i).unwrap_or_else(|| unsupported("no collection")) }
    }
    fn hm(&mut self, i: i64) -> &'static mut H<K, V, A> {
        unsafe { &mut **self.colls.get(&i).unwrap_or_else(|| unsupported("no collection")) }
    }
    /// insert; the old value, or 0
    fn put(&mut self, i: i64, k: i64, v: i64) -> i64 {
        match self.hm(i) {
            H::Set(s) => !s.insert(K::mk(k)) as i64,
            H::Map(m) => m.insert(K::mk(k), V::mk(v)).map_or(0, |v| v.num()),
            H::Tree(m) => m.insert(K::mk(k), V::mk(v)).map_or(0, |v| v.num()),
        }
    }
    /// remove; the old value, or 0
    fn cut(&mut self, i: i64, k: i64) -> i64 {
        match self.hm(i) {
            H::Set(s) => K::with_q(k, |q| s.remove(q)) as i64,
            H::Map(m) => K::with_q(k, |q| m.remove(q)).map_or(0, |v| v.num()),
            H::Tree(m) => K::with_q(k, |q| m.remove(q)).map_or(0, |v| v.num()),
        }
    }
    fn add(&mut self, i: i64, h: H<K, V, A>) {
        if self.colls.contains_key(&i) {
            unsupported("handle in use")
        }
        self.colls.insert(i, Box::into_raw(Box::new(h)));
    }
    fn take(&mut self, i: i64) -> H<K, V, A> {
        let p = self.colls.remove(&i).unwrap_or_else(|| unsupported("no collection"));
        *unsafe { Box::from_raw(p) }
    }
    fn it(&mut self, i: i64) -> &mut Box<dyn DynIt> {
        self.its.get_mut(&i).unwrap_or_else(|| unsupported("no iterator"))
    }
    fn take_it(&mut self, i: i64) -> Box<dyn DynIt> {
        self.its.remove(&i).unwrap_or_else(|| unsupported("no iterator"))
    }
    fn open(&mut self, i: i64, it: Box<dyn DynIt>) {
        if self.its.insert(i, it).is_some() {
            unsupported("iterator in use")
        }
    }

    fn step(&mut self, op: &str, a: &[i64]) -> Out {
        if READS.contains(&op) {
            let mut curs = std::mem::take(&mut self.curs);
            // restored also when the call panics
            let r = catch_unwind(AssertUnwindSafe(|| read(&|i| self.h(i), &mut curs, op, a)));
            self.curs = curs;
            return r.unwrap_or_else(|e| std::panic::resume_unwind(e));
        }
        let r: Vec<i64> = match op {
            "new" => {
                let h = match a[1] {
                    0 => H::Map(BPlusTreeMap::new()),
                    1 => H::Set(BPlusTreeSet::new()),
                    2 => H::Tree(BPlusTree::new(NodeStoreVec::new())),
                    10 => H::Map(Default::default()),
                    11 => H::Set(Default::default()),
                    12 => H::Tree(BPlusTree::new(Default::default())),
                    _ => unsupported("kind"),
                };
                self.add(a[0], h);
                vec![]
            }
            "bulk" => {
                let items = a[2..].chunks(2).inspect(|_| tok::user_code()).map(|c| (K::mk(c[0]), V::mk(c[1])));
                let h = match a[1] {
                    0 => H::Map(items.collect()),
                    1 => H::Set(a[2..].chunks(2).inspect(|_| tok::user_code()).map(|c| K::mk(c[0])).collect()),
                    2 => H::Tree(BPlusTree::bulk_load(items.collect())),
                    _ => unsupported("kind"),
                };
                self.add(a[0], h);
                vec![]
            }
            "clone" => {
                let t = only!(Tree, self.h(a[1]), op, t => t.clone());
                self.add(a[0], H::Tree(t));
                vec![]
            }
            "drop" => {
                drop(self.take(a[0]));
                vec![]
            }
            "scrap" => {
                // what a call that may have panicked was to create
                if self.colls.contains_key(&a[0]) {
                    drop(self.take(a[0]));
                }
                vec![]
            }
            "clear" => {
                match self.hm(a[0]) {
                    H::Set(s) => s.clear(),
                    H::Tree(t) => t.clear(),
                    H::Map(_) => unsupported(op),
                }
                vec![]
            }
            "insert" => {
                let (k, v) = (K::mk(a[1]), V::mk(a[2]));
                optowned(mt!(self.hm(a[0]), op, x => x.insert(k, v)))
            }
            "sinsert" => {
                let k = K::mk(a[1]);
                flag(only!(Set, self.hm(a[0]), op, s => s.insert(k)))
            }
            "del" => optowned(mt!(self.hm(a[0]), op, x => K::with_q(a[1], |q| x.remove(q)))),
            "sdel" => flag(only!(Set, self.hm(a[0]), op, s => K::with_q(a[1], |q| s.remove(q)))),
            "getmut" => {
                let slot = mt!(self.hm(a[0]), op, x => K::with_q(a[1], |q| x.get_mut(q)));
                put(slot, || V::mk(a[2]))
            }
            "atmut" => mt!(self.hm(a[0]), op, x => A::find_mut(x, &a[1..2], a[2])),
            "gmut" => mt!(self.hm(a[0]), op, x => A::find_mut(x, &a[1..3], a[3])),
            "findmut" => return mt!(self.hm(a[0]), op, x => after_find::<K, V, A, _>(x, a[1], |x| A::find_mut(x, &a[1..2], a[2]))),
            "findtake" => return mt!(self.hm(a[0]), op, x => after_find::<K, V, A, _>(x, a[1], |x| A::take(x, &a[1..]))),
            // how, level, call, value, query
            "findbad" => augs::astray(a[2], a[1], || match a[3] {
                0 => mt!(self.hm(a[0]), op, x => A::find(x, &a[5..])),
                1 => mt!(self.hm(a[0]), op, x => A::find_mut(x, &a[5..], a[4])),
                _ => mt!(self.hm(a[0]), op, x => A::take(x, &a[5..])),
            }),
            "attake" | "gtake" => mt!(self.hm(a[0]), op, x => A::take(x, &a[1..])),
            "iter" => {
                let it: Box<dyn DynIt> = match self.h(a[0]) {
                    H::Map(m) => Box::new(MapIt(m.iter())),
                    H::Tree(t) => Box::new(TreeIt(t.iter())),
                    H::Set(s) => Box::new(SetIt(s.iter())),
                };
                self.open(a[1], it);
                vec![]
            }
            "into" => {
                let it: Box<dyn DynIt> = match self.take(a[0]) {
                    H::Map(_) => unsupported(op),
                    H::Tree(t) => Box::new(OwnTreeIt(t.into_iter())),
                    H::Set(s) => Box::new(OwnSetIt(s.into_iter())),
                };
                self.open(a[1], it);
                vec![]
            }
            "union" => {
                let x = only!(Set, self.h(a[0]), op, s => s);
                let y = only!(Set, self.h(a[1]), op, s => s);
                self.open(a[2], Box::new(UnionIt(x.union(y))));
                vec![]
            }
            "iclone" => {
                let j = self.it(a[0]).dup();
                self.open(a[1], j);
                vec![]
            }
            "inext" => self.it(a[0]).front(),
            "iback" => self.it(a[0]).back(),
            "inth" => self.it(a[0]).nth(index(a[1])),
            "inthback" => self.it(a[0]).nth_back(index(a[1])),
            "ilen" => self.it(a[0]).len(),
            "itake" => self.it(a[0]).take(index(a[1])),
            "ifind" => self.it(a[0]).find(a[1]),
            "irfind" => self.it(a[0]).rfind(a[1]),
            "ipos" => self.it(a[0]).position(a[1]),
            "irpos" => self.it(a[0]).rposition(a[1]),
            "iall" => flag(self.it(a[0]).all_below(a[1])),
            "ifold" => self.take_it(a[0]).fold(),
            "ieach" => self.take_it(a[0]).each(),
            "irfold" => self.take_it(a[0]).rfold(),
            "istep" => self.take_it(a[0]).step(index(a[1])),
            "iskip" => self.take_it(a[0]).skip(index(a[1])),
            "iminby" => self.take_it(a[0]).min_by(),
            "imaxby" => self.take_it(a[0]).max_by(),
            "idrop" => {
                drop(self.take_it(a[0]));
                vec![]
            }
            "irest" => self.take_it(a[0]).rest(),
            "irestrev" => self.take_it(a[0]).rest_rev(),
            "icount" => vec![self.take_it(a[0]).count() as i64],
            "ilast" => self.take_it(a[0]).last(),
            "imin" => self.take_it(a[0]).min(),
            "imax" => self.take_it(a[0]).max(),
            "fill" => {
                let (mut n, mut sum) = (0, 0);
                for (j, k) in terms(&a[1..]).enumerate() {
                    let old = self.put(a[0], k, a[4] + j as i64);
                    n += (old == 0) as i64;
                    sum = (sum + old) % MP;
                }
                vec![n, sum]
            }
            "wipe" => {
                let (mut n, mut sum) = (0, 0);
                for k in terms(&a[1..]) {
                    let old = self.cut(a[0], k);
                    n += (old != 0) as i64;
                    sum = (sum + old) % MP;
                }
                vec![n, sum]
            }
            "churn" => {
                let (mut n, mut sum) = (0, 0);
                for _ in 0..a[5] {
                    for (j, k) in terms(&a[1..]).enumerate() {
                        sum = (sum + self.put(a[0], k, a[4] + j as i64)) % MP;
                    }
                    for k in terms(&a[1..]) {
                        let old = self.cut(a[0], k);
                        n += (old != 0) as i64;
                        sum = (sum + old) % MP;
                    }
                }
                vec![n, sum]
            }
            "slide" => {
                let (mut n, mut sum) = (0, 0);
                for (j, k) in terms(&a[1..]).enumerate() {
                    let old = self.put(a[0], k, a[4] + j as i64);
                    n += (old == 0) as i64;
                    sum = (sum + old) % MP;
                    if j as i64 >= a[5] {
                        sum = (sum + self.cut(a[0], k - a[5] * a[3])) % MP;
                    }
                }
                vec![n, sum]
            }
            "attakes" => mt!(self.hm(a[0]), op, x => {
                let (mut n, mut sum) = (0, 0);
                for _ in 0..a[2] {
                    if let [_, v] = A::take(x, &a[1..2])[..] {
                        n += 1;
                        sum = (sum + v) % MP;
                    }
                }
                vec![n, sum]
            }),
            "end" => {
                self.its.clear();
                let hs: Vec<i64> = self.colls.keys().copied().collect();
                for h in hs {
                    drop(self.take(h));
                }
                self.curs.clear();
                vec![]
            }
            _ => unsupported(op),
        };
        r.into()
    }

    #[cfg(feature = "threads")]
    fn parallel(&mut self, order: Vec<usize>, ops: &[(usize, String, Vec<i64>)]) -> Vec<Option<Out>> {
        let threads = ops.iter().map(|o| o.0 + 1).max().unwrap_or(0);
        let refs: BTreeMap<i64, &H<K, V, A>> = self.colls.iter().map(|(i, p)| (*i, unsafe { &**p })).collect();
        let refs = &refs;
        sched::start(order, threads);
        let mut outs: Vec<Option<Out>> = ops.iter().map(|_| None).collect();
        let curs0 = &self.curs;
        let parts = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|t| {
                    s.spawn(move || {
                        let mut curs = curs0.clone();
                        tok::THREAD.with(|x| x.set(t));
                        let mut res = vec![];
                        for (i, (who, op, a)) in ops.iter().enumerate() {
                            if *who != t {
                                continue;
                            }
                            if !READS.contains(&op.as_str()) {
                                unsupported(op);
                            }
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                read(&|i| *refs.get(&i).unwrap_or_else(|| unsupported("no collection")), &mut curs, op, a)
                            }));
                            match r {
                                Ok(o) => res.push((i, o)),
                                Err(_) => break,
                            }
                        }
                        sched::finished(t);
                        (res, curs)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
        });
        sched::stop();
        // a cursor is only ever written by one thread
        let old = self.curs.clone();
        for (t, (res, curs)) in parts.into_iter().enumerate() {
            for (i, o) in res {
                outs[i] = Some(o);
            }
            let mut mine: Vec<i64> = vec![];
            for (who, op, a) in ops {
                if *who == t {
                    match op.as_str() {
                        "cfirst" | "cfirstp" | "clast" | "cget" | "ccopy" => mine.push(a[1]),
                        "cnext" | "cnextp" | "cprev" | "cprevp" => mine.push(a[2]),
                        _ => {}
                    }
                }
            }
            for c in mine {
                match curs.get(&c) {
                    Some(x) => self.curs.insert(c, x.clone()),
                    None => self.curs.remove(&c),
                };
            }
        }
        drop(old);
        outs
    }
    #[cfg(not(feature = "threads"))]
    fn parallel(&mut self, _order: Vec<usize>, _ops: &[(usize, String, Vec<i64>)]) -> Vec<Option<Out>> {
        unsupported("par")
    }
}

fn emit(w: &mut impl Write, o: &Out, tracked: bool) {
    let mut s = format!("{{\"r\":{}{}", js(&o.r), o.extra);
    if tracked {
        let (own, dv) = tok::report();
        s += &format!(",\"own\":{},\"dv\":{}", js(&own), js(&dv));
    }
    writeln!(w, "{s}}}").unwrap();
    w.flush().unwrap();
}

fn nums(xs: &[&str]) -> Vec<i64> {
    xs.iter().map(|x| x.parse().unwrap_or_else(|_| unsupported("number"))).collect()
}

fn run<K: KC, V: VC, A: DA<K, V>>(lines: &[String], tracked: bool) {
    let mut d: Driver<K, V, A> = Driver::new();
    let stdout = std::io::stdout();
    let mut w = stdout.lock();
    let mut i = 0;
    while i < lines.len() {
        let mut t: Vec<&str> = lines[i].split_whitespace().collect();
        i += 1;
        if t.is_empty() || t[0].starts_with('#') {
            continue;
        }
        if t[0] == "par" {
            // par [schedule] / <thread> op args / endpar
            let order: Vec<usize> = nums(&t[1..]).into_iter().map(|x| x as usize).collect();
            let mut ops = vec![];
            while i < lines.len() && lines[i].trim() != "endpar" {
                let p: Vec<&str> = lines[i].split_whitespace().collect();
                ops.push((p[0].parse().unwrap(), p[1].to_string(), nums(&p[2..])));
                i += 1;
            }
            i += 1;
            for o in d.parallel(order, &ops) {
                match o {
                    Some(o) => emit(&mut w, &o, tracked),
                    None => {
                        writeln!(w, "{{\"f\":\"panic\"}}").unwrap();
                        w.flush().unwrap();
                        std::process::exit(0);
                    }
                }
            }
            continue;
        }
        let (mut fuse, mut clone_fuse) = (0, 0);
        if t[0] == "fuse" || t[0] == "fusec" {
            *(if t[0] == "fuse" { &mut fuse } else { &mut clone_fuse }) = t[1].parse().unwrap();
            t.drain(0..2);
        }
        let a = nums(&t[1..]);
        tok::FUSE.store(fuse, SeqCst);
        tok::CLONE_FUSE.store(clone_fuse, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| d.step(t[0], &a)));
        tok::FUSE.store(0, SeqCst);
        tok::CLONE_FUSE.store(0, SeqCst);
        match r {
            Ok(o) => emit(&mut w, &o, tracked),
            Err(e) if e.is::<tok::Fused>() => {
                let o = Out { r: vec![-1], extra: ",\"f\":\"fused\"".into() };
                emit(&mut w, &o, tracked);
            }
            Err(e) => {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
                let m = m.chars().filter(|c| c.is_ascii_graphic() || *c == ' ').take(200).collect::<String>();
                if tok::WILD.load(SeqCst) != 0 {
                    // whatever happened, nothing must be dropped twice
                    let _ = catch_unwind(AssertUnwindSafe(|| d.step("end", &[])));
                    emit(&mut w, &Out { r: vec![], extra: format!(",\"f\":\"panic\",\"m\":{m:?}") }, tracked);
                    std::process::exit(0);
                }
                writeln!(w, "{{\"f\":\"panic\",\"m\":{m:?}}}").unwrap();
                w.flush().unwrap();
                // what a broken collection does next is of no interest
                std::process::exit(0);
            }
        }
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("program file");
    let f = std::fs::File::open(&path).expect("open program");
    let mut lines: Vec<String> = std::io::BufReader::new(f).lines().map(|l| l.unwrap()).collect();
    let head = lines.remove(0);
    let mut cfg: BTreeMap<String, String> = BTreeMap::new();
    for w in head.split_whitespace() {
        if let Some((a, b)) = w.split_once('=') {
            cfg.insert(a.into(), b.into());
        }
    }
    let c = |k: &str| cfg.get(k).map(|s| s.as_str()).unwrap_or("");
    if !c("grp").is_empty() {
        let _ = GRP.set(c("grp").split(',').map(|x| x.parse().unwrap()).collect());
    }
    if let Some((seed, lies)) = c("wild").split_once(':') {
        tok::WILD.store(seed.parse().unwrap(), SeqCst);
        tok::LIES.store(lies.parse().unwrap(), SeqCst);
    }
    std::panic::set_hook(Box::new(|_| {}));
    // the tree is recursive
    let t = std::thread::Builder::new().stack_size(64 << 20);
    let combo = format!("{}{}-{}", c("key"), c("val"), c("aug"));
    let j = t
        .spawn(move || match combo.as_str() {
            "ii-unit" => run::<KI, VI, ()>(&lines, false),
            "ii-count" => run::<KI, VI, Count>(&lines, false),
            "ii-hash" => run::<KI, VI, Hash<17>>(&lines, false),
            "ii-khash" => run::<KI, VI, Hash<0>>(&lines, false),
            "ii-ksum" => run::<KI, VI, Sum<false>>(&lines, false),
            "ii-vsum" => run::<KI, VI, Sum<true>>(&lines, false),
            "ii-max" => run::<KI, VI, Max>(&lines, false),
            "ss-unit" => run::<KS, VS, ()>(&lines, false),
            "si-count" => run::<KS, VI, Count>(&lines, false),
            "pi-group" => run::<KP, VI, GroupCount<Gt>>(&lines, false),
            "pi-groups" => run::<KP, VI, GroupCount<Gs>>(&lines, false),
            "tt-unit" => run::<KT, VT, ()>(&lines, true),
            "tt-count" => run::<KT, VT, Count>(&lines, true),
            "tt-tracked" => run::<KT, VT, Tracked>(&lines, true),
            "yi-unit" => run::<KY, VI, ()>(&lines, false),
            "yi-count" => run::<KY, VI, Count>(&lines, false),
            x => unsupported(x),
        })
        .unwrap();
    if j.join().is_err() {
        std::process::exit(4)
    }
}
