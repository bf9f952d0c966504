//! Key and value codecs, and the augmentations used by the programs.
use crate::tok::{Tok, Yk, AUG, KEY, VAL};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::sync::OnceLock;
use sweep_bptree::augment::count::Count;
use sweep_bptree::augment::group::{ExtractGroupSize, FromRef, GroupCount, Tuple2};
use sweep_bptree::augment::{Augmentation, RankAugmentation, SearchAugmentation};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};
use sweep_bptree::{BPlusTree, BPlusTreeMap, Key, NodeStoreVec};

/// indexes from 2,000,000,000 on stand for the largest there are
pub fn index(i: i64) -> usize {
    if i >= 2_000_000_000 {
        usize::MAX - (i - 2_000_000_000) as usize
    } else {
        i as usize
    }
}

pub fn unsupported(what: &str) -> ! {
    eprintln!("unsupported: {what}");
    std::process::exit(3)
}

pub static GRP: OnceLock<Vec<u64>> = OnceLock::new();

pub trait Num {
    fn num(&self) -> i64;
}
impl Num for i64 {
    fn num(&self) -> i64 {
        *self
    }
}
impl Num for String {
    fn num(&self) -> i64 {
        self.trim_start_matches('k').parse().unwrap()
    }
}
impl Num for (u64, i64) {
    fn num(&self) -> i64 {
        self.1
    }
}
impl<const C: usize> Num for Tok<C> {
    fn num(&self) -> i64 {
        self.check();
        self.pay
    }
}
impl Num for Yk {
    fn num(&self) -> i64 {
        self.0
    }
}

/// Key codec
pub trait KC: 'static {
    type K: Key + Num + Borrow<Self::Q> + Send + Sync + 'static;
    type Q: ?Sized + Ord;
    fn mk(k: i64) -> Self::K;
    fn with_q<R>(k: i64, f: impl FnOnce(&Self::Q) -> R) -> R;
}
pub struct KI;
impl KC for KI {
    type K = i64;
    type Q = i64;
    fn mk(k: i64) -> i64 {
        k
    }
    fn with_q<R>(k: i64, f: impl FnOnce(&i64) -> R) -> R {
        f(&k)
    }
}
pub struct KS;
impl KC for KS {
    type K = String;
    type Q = str;
    fn mk(k: i64) -> String {
        format!("k{k:07}")
    }
    fn with_q<R>(k: i64, f: impl FnOnce(&str) -> R) -> R {
        f(&Self::mk(k))
    }
}
pub struct KP;
impl KC for KP {
    type K = (u64, i64);
    type Q = (u64, i64);
    fn mk(k: i64) -> (u64, i64) {
        (GRP.get().unwrap()[k as usize - 1], k)
    }
    fn with_q<R>(k: i64, f: impl FnOnce(&(u64, i64)) -> R) -> R {
        f(&Self::mk(k))
    }
}
pub struct KT;
impl KC for KT {
    type K = Tok<KEY>;
    type Q = Tok<KEY>;
    fn mk(k: i64) -> Tok<KEY> {
        Tok::new(k)
    }
    fn with_q<R>(k: i64, f: impl FnOnce(&Tok<KEY>) -> R) -> R {
        f(&Tok::new(k))
    }
}
pub struct KY;
impl KC for KY {
    type K = Yk;
    type Q = Yk;
    fn mk(k: i64) -> Yk {
        Yk(k)
    }
    fn with_q<R>(k: i64, f: impl FnOnce(&Yk) -> R) -> R {
        f(&Yk(k))
    }
}

/// Value codec
pub trait VC: 'static {
    type V: Num + Clone + Send + Sync + 'static;
    fn mk(v: i64) -> Self::V;
}
pub struct VI;
impl VC for VI {
    type V = i64;
    fn mk(v: i64) -> i64 {
        v
    }
}
pub struct VS;
impl VC for VS {
    type V = String;
    fn mk(v: i64) -> String {
        format!("{v}")
    }
}
pub struct VT;
impl VC for VT {
    type V = Tok<VAL>;
    fn mk(v: i64) -> Tok<VAL> {
        Tok::new(v)
    }
}

/// Maps and trees share the augmentation API
pub trait Host<K: Key, V, A: Augmentation<K, V>> {
    fn get_q<Q>(&self, q: Q) -> Option<(&K, &V)>
    where
        A: SearchAugmentation<K, V, Query = Q>;
    fn mut_q<Q>(&mut self, q: Q) -> Option<&mut V>
    where
        A: SearchAugmentation<K, V, Query = Q>;
    fn rm_q<Q>(&mut self, q: Q) -> Option<(K, V)>
    where
        A: SearchAugmentation<K, V, Query = Q>;
    fn rank_q<R>(&self, k: &K) -> Result<R, R>
    where
        A: RankAugmentation<K, V, Rank = R>;
    fn visit_q<VI2, R>(&self, v: VI2) -> Option<R>
    where
        VI2: DescendVisit<K, V, A, Result = R>;
    fn root(&self) -> &A;
}
macro_rules! host {
    ($t:ty) => {
        impl<K: Key, V, A: Augmentation<K, V>> Host<K, V, A> for $t {
            fn get_q<Q>(&self, q: Q) -> Option<(&K, &V)>
            where
                A: SearchAugmentation<K, V, Query = Q>,
            {
                self.get_by_augmentation(q)
            }
            fn mut_q<Q>(&mut self, q: Q) -> Option<&mut V>
            where
                A: SearchAugmentation<K, V, Query = Q>,
            {
                self.get_mut_by_augmentation(q)
            }
            fn rm_q<Q>(&mut self, q: Q) -> Option<(K, V)>
            where
                A: SearchAugmentation<K, V, Query = Q>,
            {
                self.remove_by_augmentation(q)
            }
            fn rank_q<R>(&self, k: &K) -> Result<R, R>
            where
                A: RankAugmentation<K, V, Rank = R>,
            {
                self.rank_by_augmentation(k)
            }
            fn visit_q<VI2, R>(&self, v: VI2) -> Option<R>
            where
                VI2: DescendVisit<K, V, A, Result = R>,
            {
                self.descend_visit(v)
            }
            fn root(&self) -> &A {
                self.root_augmentation()
            }
        }
    };
}
host!(BPlusTreeMap<K, V, A>);
host!(BPlusTree<NodeStoreVec<K, V, A>>);

fn entry<K: Num, V: Num>(e: Option<(&K, &V)>) -> Vec<i64> {
    e.map(|(k, v)| vec![k.num(), v.num()]).unwrap_or_default()
}
fn owned<K: Num, V: Num>(e: Option<(K, V)>) -> Vec<i64> {
    e.map(|(k, v)| vec![k.num(), v.num()]).unwrap_or_default()
}
pub fn put<V: Num>(slot: Option<&mut V>, v: impl FnOnce() -> V) -> Vec<i64> {
    match slot {
        Some(s) => {
            let old = std::mem::replace(s, v());
            vec![old.num()]
        }
        None => vec![],
    }
}
fn rank_of<T>(r: Result<T, T>, f: impl FnOnce(T) -> Vec<i64>) -> Vec<i64> {
    let (ok, t) = match r {
        Ok(t) => (1, t),
        Err(t) => (0, t),
    };
    let mut v = vec![ok];
    v.extend(f(t));
    v
}

/// What the programs do with an augmentation; the query is a list of numbers
pub trait DA<K: KC, V: VC>: Augmentation<K::K, V::V> + Send + Sync + 'static {
    fn show(&self) -> Vec<i64>;
    fn find<H: Host<K::K, V::V, Self>>(_h: &H, _q: &[i64]) -> Vec<i64> {
        unsupported("find")
    }
    fn find_mut<H: Host<K::K, V::V, Self>>(_h: &mut H, _q: &[i64], _v: i64) -> Vec<i64> {
        unsupported("find_mut")
    }
    fn take<H: Host<K::K, V::V, Self>>(_h: &mut H, _q: &[i64]) -> Vec<i64> {
        unsupported("take")
    }
    fn rank<H: Host<K::K, V::V, Self>>(_h: &H, _k: &K::K) -> Vec<i64> {
        unsupported("rank")
    }
    fn group_size<H: Host<K::K, V::V, Self>>(_h: &H, _g: i64) -> Vec<i64> {
        unsupported("group_size")
    }
}

macro_rules! search_by {
    ($k:ident, $v:ident, |$q:ident| $query:expr) => {
        fn find<H: Host<$k::K, $v::V, Self>>(h: &H, $q: &[i64]) -> Vec<i64> {
            entry(h.get_q($query))
        }
        fn find_mut<H: Host<$k::K, $v::V, Self>>(h: &mut H, $q: &[i64], v: i64) -> Vec<i64> {
            put(h.mut_q($query), || $v::mk(v))
        }
        fn take<H: Host<$k::K, $v::V, Self>>(h: &mut H, $q: &[i64]) -> Vec<i64> {
            owned(h.rm_q($query))
        }
    };
}

impl<K: KC, V: VC> DA<K, V> for () {
    fn show(&self) -> Vec<i64> {
        vec![]
    }
}

impl<K: KC, V: VC> DA<K, V> for Count {
    fn show(&self) -> Vec<i64> {
        vec![self.count() as i64]
    }
    search_by!(K, V, |q| index(q[0]));
    fn rank<H: Host<K::K, V::V, Self>>(h: &H, k: &K::K) -> Vec<i64> {
        rank_of(h.rank_q(k), |r: usize| vec![r as i64])
    }
}

// ---- groups

pub trait Grp: Clone + Ord + std::fmt::Debug + Send + Sync + 'static {
    fn mk(g: i64) -> Self;
    fn num(&self) -> i64;
}
/// a group type that owns memory
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Gs(String);
impl FromRef<(u64, i64)> for Gs {
    fn from_ref(k: &(u64, i64)) -> Self {
        Gs(format!("{:06}", k.0))
    }
}
impl Grp for Gs {
    fn mk(g: i64) -> Self {
        Gs(format!("{g:06}"))
    }
    fn num(&self) -> i64 {
        self.0.parse().unwrap()
    }
}
pub type Gt = Tuple2<u64>;
impl Grp for Gt {
    fn mk(g: i64) -> Self {
        Tuple2::from_ref(&(g as u64, 0i64))
    }
    fn num(&self) -> i64 {
        // the field is private
        format!("{self:?}").trim_start_matches("Tuple2(").trim_end_matches(')').parse().unwrap()
    }
}
impl<K: KC, V: VC, G: Grp + FromRef<K::K>> DA<K, V> for GroupCount<G> {
    fn show(&self) -> Vec<i64> {
        let mut r = vec![self.group_count() as i64];
        if let Some((g, n)) = self.max_group() {
            r.push(g.num());
            r.push(n as i64);
        }
        if self.is_zero() != (r.len() == 1) {
            r.push(-1);
        }
        r
    }
    search_by!(K, V, |q| (G::mk(q[0]), index(q[1])));
    fn rank<H: Host<K::K, V::V, Self>>(h: &H, k: &K::K) -> Vec<i64> {
        rank_of(h.rank_q(k), |r: Option<(G, usize)>| match r {
            Some((g, o)) => vec![g.num(), o as i64],
            None => vec![],
        })
    }
    fn group_size<H: Host<K::K, V::V, Self>>(h: &H, g: i64) -> Vec<i64> {
        h.visit_q(ExtractGroupSize::<G, K::K>::new(G::mk(g))).map(|n| vec![n as i64]).unwrap_or_default()
    }
}

// ---- what the functions of an augmentation were given

thread_local! {
    /// per level of the last descent: <<number of keys, hash of the keys>>
    pub static PATH: RefCell<Vec<Vec<i64>>> = const { RefCell::new(vec![]) };
}
fn brief<K: Num>(keys: &[K]) -> Vec<i64> {
    vec![keys.len() as i64, keys.iter().fold(0, |a, k| (a * 257 + k.num()) % 1000003)]
}
fn given<K: Num>(keys: &[K]) {
    PATH.with(|p| p.borrow_mut().push(brief(keys)));
}
thread_local! {
    /// an answer outside the node is due: (levels left, which one)
    static STRAY: std::cell::Cell<Option<(i64, i64)>> = const { std::cell::Cell::new(None) };
    static STRAYED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// the answer to give instead of the right one, `n` being the first that is out of range
fn stray(n: usize, leaf: bool) -> Option<usize> {
    let (level, how) = STRAY.get()?;
    if level > 0 && !leaf {
        STRAY.set(Some((level - 1, how)));
        return None;
    }
    STRAY.set(None);
    STRAYED.set(true);
    Some(match how {
        2 => 1 << 40,
        3 => usize::MAX,
        4 => n.max(63),
        _ => n + how as usize,
    })
}
/// `f` with a query that is answered wrongly at `level`, or at the leaf if that comes first;
/// -1: it panicked because of that, -2: it did not
pub fn astray(level: i64, how: i64, f: impl FnOnce() -> Vec<i64>) -> Vec<i64> {
    STRAY.set(Some((level, how)));
    STRAYED.set(false);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    STRAY.set(None);
    match r {
        Ok(r) if STRAYED.get() => [vec![-2], r].concat(),
        Ok(r) => r,
        Err(_) if STRAYED.get() => vec![-1],
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// follows the separators to the leaf where `k` belongs
struct Follow<'k, K>(&'k K);
impl<'k, K: Key + Num, V, A: Augmentation<K, V>> DescendVisit<K, V, A> for Follow<'k, K> {
    type Result = ();
    fn visit_inner(&mut self, keys: &[K], _augs: &[A]) -> DescendVisitResult<()> {
        given(keys);
        DescendVisitResult::GoDown(keys.iter().filter(|x| *x <= self.0).count())
    }
    fn visit_leaf(&mut self, keys: &[K], _values: &[V]) -> Option<()> {
        given(keys);
        None
    }
}
/// the levels recorded since the last call
fn levels() -> Vec<Vec<i64>> {
    PATH.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
fn with_paths(r: Vec<i64>, path: Vec<Vec<i64>>, seen: Vec<Vec<i64>>) -> crate::Out {
    crate::Out { extra: format!(",\"path\":{},\"seen\":{}", crate::jss(&path), crate::jss(&seen)), r }
}
/// `call`, what its functions were given, and what a visitor sees on the way to the key that `key` picks from the result
pub fn compared<K: KC, V: VC, A: DA<K, V>, H: Host<K::K, V::V, A>>(
    h: &H,
    call: impl FnOnce(&H) -> Vec<i64>,
    key: impl FnOnce(&[i64]) -> Option<K::K>,
) -> crate::Out {
    levels();
    let r = call(h);
    let path = levels();
    if let Some(k) = key(&r) {
        h.visit_q(Follow(&k));
    }
    with_paths(r, path, levels())
}
/// `call`, what its functions were given, and for odd queries what those of a search were given just before
pub fn after_find<K: KC, V: VC, A: DA<K, V>, H: Host<K::K, V::V, A>>(
    h: &mut H,
    q: i64,
    call: impl FnOnce(&mut H) -> Vec<i64>,
) -> crate::Out {
    levels();
    if q % 2 == 1 {
        A::find(h, &[q]);
    }
    let seen = levels();
    let r = call(h);
    with_paths(r, levels(), seen)
}

// ---- augmentations defined by the user of the library; the same functions are in spec/SweepAPI.tla

const HB: u64 = 257;
const HM: u64 = 8000009;
const HASH_SEED: u64 = 5;

/// order dependent fold of all entries; VW = 0 ignores the values
#[derive(Clone, Debug)]
pub struct Hash<const VW: u64> {
    n: u64,
    h: u64,
    /// HB^n
    p: u64,
}
impl<const VW: u64> Default for Hash<VW> {
    fn default() -> Self {
        Hash { n: 0, h: 0, p: 1 }
    }
}
impl<const VW: u64> Hash<VW> {
    fn push(&mut self, k: u64, v: u64) {
        self.n += 1;
        self.h = (self.h * HB + k * 31 + v * VW + 7) % HM;
        self.p = self.p * HB % HM;
    }
    fn join(&mut self, o: &Self) {
        self.n += o.n;
        self.h = (self.h * o.p + o.h) % HM;
        self.p = self.p * o.p % HM;
    }
}
impl<K: Key + Num, V: Num, const VW: u64> Augmentation<K, V> for Hash<VW> {
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        let mut a = Self::default();
        for (k, v) in keys.iter().zip(values) {
            a.push(k.num() as u64, v.num() as u64);
        }
        if keys.len() != values.len() {
            a.n += 1 << 20;
        }
        a
    }
    fn from_inner(keys: &[K], augmentations: &[Self]) -> Self {
        let mut a = Self::default();
        for x in augmentations {
            a.join(x);
        }
        if keys.len() + 1 != augmentations.len() {
            a.n += 1 << 20;
        }
        a
    }
}
impl<K: Key + Num, V: Num, const VW: u64> SearchAugmentation<K, V> for Hash<VW> {
    type Query = u64;
    fn locate_in_leaf(q: u64, keys: &[K], values: &[V]) -> Option<usize> {
        if let Some(i) = stray(keys.len(), true) {
            return Some(i);
        }
        given(keys);
        ((q as usize) < keys.len() && keys.len() == values.len()).then_some(q as usize)
    }
    fn locate_in_inner(mut q: u64, keys: &[K], augmentations: &[Self]) -> Option<(usize, u64)> {
        if let Some(i) = stray(augmentations.len(), false) {
            return Some((i, q));
        }
        given(keys);
        if keys.len() + 1 != augmentations.len() {
            return None;
        }
        for (i, a) in augmentations.iter().enumerate() {
            if q < a.n {
                return Some((i, q));
            }
            q -= a.n;
        }
        None
    }
}
impl<K: Key + Num, V: Num> RankAugmentation<K, V> for Hash<0> {
    type Rank = u64;
    fn initial_value() -> u64 {
        HASH_SEED
    }
    fn fold_inner(_k: &K, rank: u64, augmentations: &[Self]) -> u64 {
        augmentations.iter().fold(rank, |r, a| (r * a.p + a.h) % HM)
    }
    fn fold_leaf(k: &K, rank: u64, slot: Result<usize, usize>, keys: &[K]) -> Result<u64, u64> {
        given(keys);
        let i = match slot {
            Ok(i) | Err(i) => i,
        };
        let r = keys[..i].iter().fold(rank, |r, k| (r * HB + k.num() as u64 * 31 + 7) % HM);
        if slot.is_ok() && keys[i] == *k {
            Ok(r)
        } else {
            Err(r)
        }
    }
}
impl<K: KC, V: VC> DA<K, V> for Hash<17> {
    fn show(&self) -> Vec<i64> {
        vec![self.n as i64, self.h as i64]
    }
    search_by!(K, V, |q| q[0] as u64);
}
impl<K: KC, V: VC> DA<K, V> for Hash<0> {
    fn show(&self) -> Vec<i64> {
        vec![self.n as i64, self.h as i64]
    }
    search_by!(K, V, |q| q[0] as u64);
    fn rank<H: Host<K::K, V::V, Self>>(h: &H, k: &K::K) -> Vec<i64> {
        rank_of(h.rank_q(k), |r: u64| vec![r as i64])
    }
}

/// sum of weights; BYVAL: the value is the weight, otherwise it is derived from the key
#[derive(Clone, Debug, Default)]
pub struct Sum<const BYVAL: bool>(i64);
fn weight<K: Num, V: Num>(byval: bool, k: &K, v: Option<&V>) -> i64 {
    match v {
        Some(v) if byval => v.num(),
        _ => k.num() * 7 % 5 + 1,
    }
}
impl<K: Key + Num, V: Num, const B: bool> Augmentation<K, V> for Sum<B> {
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        Sum(keys.iter().zip(values).map(|(k, v)| weight(B, k, Some(v))).sum())
    }
    fn from_inner(_keys: &[K], augmentations: &[Self]) -> Self {
        Sum(augmentations.iter().map(|a| a.0).sum())
    }
}
impl<K: Key + Num, V: Num, const B: bool> SearchAugmentation<K, V> for Sum<B> {
    type Query = i64;
    fn locate_in_leaf(mut q: i64, keys: &[K], values: &[V]) -> Option<usize> {
        if let Some(i) = stray(keys.len(), true) {
            return Some(i);
        }
        given(keys);
        for (i, (k, v)) in keys.iter().zip(values).enumerate() {
            let w = weight(B, k, Some(v));
            if q < w {
                return Some(i);
            }
            q -= w;
        }
        None
    }
    fn locate_in_inner(mut q: i64, keys: &[K], augmentations: &[Self]) -> Option<(usize, i64)> {
        if let Some(i) = stray(augmentations.len(), false) {
            return Some((i, q));
        }
        given(keys);
        for (i, a) in augmentations.iter().enumerate() {
            if q < a.0 {
                return Some((i, q));
            }
            q -= a.0;
        }
        None
    }
}
impl<K: Key + Num, V: Num> RankAugmentation<K, V> for Sum<false> {
    type Rank = i64;
    fn initial_value() -> i64 {
        0
    }
    fn fold_inner(_k: &K, rank: i64, augmentations: &[Self]) -> i64 {
        rank + augmentations.iter().map(|a| a.0).sum::<i64>()
    }
    fn fold_leaf(_k: &K, rank: i64, slot: Result<usize, usize>, keys: &[K]) -> Result<i64, i64> {
        given(keys);
        let f = |i: usize| rank + keys[..i].iter().map(|k| weight::<K, V>(false, k, None)).sum::<i64>();
        slot.map(f).map_err(f)
    }
}
impl<K: KC, V: VC> DA<K, V> for Sum<false> {
    fn show(&self) -> Vec<i64> {
        vec![self.0]
    }
    search_by!(K, V, |q| q[0]);
    fn rank<H: Host<K::K, V::V, Self>>(h: &H, k: &K::K) -> Vec<i64> {
        rank_of(h.rank_q(k), |r: i64| vec![r])
    }
}
impl<K: KC, V: VC> DA<K, V> for Sum<true> {
    fn show(&self) -> Vec<i64> {
        vec![self.0]
    }
    search_by!(K, V, |q| q[0]);
}

/// largest value: a secondary index for "first entry with a value of at least q"
#[derive(Clone, Debug, Default)]
pub struct Max(i64);
impl<K: Key + Num, V: Num> Augmentation<K, V> for Max {
    fn from_leaf(_keys: &[K], values: &[V]) -> Self {
        Max(values.iter().map(|v| v.num()).max().unwrap_or(0))
    }
    fn from_inner(_keys: &[K], augmentations: &[Self]) -> Self {
        Max(augmentations.iter().map(|a| a.0).max().unwrap_or(0))
    }
}
impl<K: Key + Num, V: Num> SearchAugmentation<K, V> for Max {
    type Query = i64;
    fn locate_in_leaf(q: i64, keys: &[K], values: &[V]) -> Option<usize> {
        if let Some(i) = stray(keys.len(), true) {
            return Some(i);
        }
        given(keys);
        values.iter().position(|v| v.num() >= q)
    }
    fn locate_in_inner(q: i64, keys: &[K], augmentations: &[Self]) -> Option<(usize, i64)> {
        if let Some(i) = stray(augmentations.len(), false) {
            return Some((i, q));
        }
        given(keys);
        augmentations.iter().position(|a| a.0 >= q).map(|i| (i, q))
    }
}
impl<K: KC, V: VC> DA<K, V> for Max {
    fn show(&self) -> Vec<i64> {
        vec![self.0]
    }
    search_by!(K, V, |q| q[0]);
}

/// counts, and is itself a tracked object
#[derive(Clone)]
pub struct Tracked {
    t: Tok<AUG>,
    n: usize,
}
impl Tracked {
    fn of(n: usize) -> Self {
        Tracked { t: Tok::new(0), n }
    }
}
impl Default for Tracked {
    fn default() -> Self {
        Tracked::of(0)
    }
}
impl<K: Key + Num, V: Num> Augmentation<K, V> for Tracked {
    fn from_leaf(keys: &[K], values: &[V]) -> Self {
        keys.iter().for_each(|k| {
            k.num();
        });
        values.iter().for_each(|v| {
            v.num();
        });
        Tracked::of(keys.len())
    }
    fn from_inner(keys: &[K], augmentations: &[Self]) -> Self {
        keys.iter().for_each(|k| {
            k.num();
        });
        Tracked::of(
            augmentations
                .iter()
                .map(|a| {
                    a.t.check();
                    a.n
                })
                .sum(),
        )
    }
}
impl<K: Key + Num, V: Num> SearchAugmentation<K, V> for Tracked {
    type Query = usize;
    fn locate_in_leaf(q: usize, keys: &[K], _values: &[V]) -> Option<usize> {
        if let Some(i) = stray(keys.len(), true) {
            return Some(i);
        }
        (q < keys.len()).then_some(q)
    }
    fn locate_in_inner(mut q: usize, _keys: &[K], augmentations: &[Self]) -> Option<(usize, usize)> {
        if let Some(i) = stray(augmentations.len(), false) {
            return Some((i, q));
        }
        for (i, a) in augmentations.iter().enumerate() {
            a.t.check();
            if q < a.n {
                return Some((i, q));
            }
            q -= a.n;
        }
        None
    }
}
impl<K: KC, V: VC> DA<K, V> for Tracked {
    fn show(&self) -> Vec<i64> {
        self.t.check();
        vec![self.n as i64]
    }
    search_by!(K, V, |q| index(q[0]));
}
