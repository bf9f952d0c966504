//! Iterators behind one interface; an item is shown as numbers.
use crate::augs::{unsupported, Num};
use sweep_bptree::tree::{IntoIter, Iter};
use sweep_bptree::{Key, NodeStore};

pub trait DynIt {
    fn front(&mut self) -> Vec<i64>;
    fn back(&mut self) -> Vec<i64> {
        unsupported("back")
    }
    fn nth(&mut self, n: usize) -> Vec<i64>;
    fn nth_back(&mut self, _n: usize) -> Vec<i64> {
        unsupported("nth_back")
    }
    /// [len, lower, upper], or [lower, upper] for an iterator without exact length
    fn len(&self) -> Vec<i64>;
    fn dup(&self) -> Box<dyn DynIt> {
        unsupported("iterator clone")
    }
    fn rest(self: Box<Self>) -> Vec<i64>;
    fn rest_rev(self: Box<Self>) -> Vec<i64> {
        unsupported("rev")
    }
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Vec<i64>;
    /// the methods the standard library builds on these; an iterator is free to have its own
    fn take(&mut self, n: usize) -> Vec<i64>;
    fn find(&mut self, k: i64) -> Vec<i64>;
    fn position(&mut self, k: i64) -> Vec<i64>;
    fn all_below(&mut self, k: i64) -> bool;
    fn rfind(&mut self, _k: i64) -> Vec<i64> {
        unsupported("rfind")
    }
    fn rposition(&mut self, _k: i64) -> Vec<i64> {
        unsupported("rposition")
    }
    fn fold(self: Box<Self>) -> Vec<i64>;
    fn each(self: Box<Self>) -> Vec<i64>;
    fn step(self: Box<Self>, n: usize) -> Vec<i64>;
    fn skip(self: Box<Self>, n: usize) -> Vec<i64>;
    fn min_by(self: Box<Self>) -> Vec<i64>;
    fn max_by(self: Box<Self>) -> Vec<i64>;
    fn rfold(self: Box<Self>) -> Vec<i64> {
        unsupported("rfold")
    }
    fn min(self: Box<Self>) -> Vec<i64> {
        unsupported("min")
    }
    fn max(self: Box<Self>) -> Vec<i64> {
        unsupported("max")
    }
}

fn hint(h: (usize, Option<usize>)) -> [i64; 2] {
    [h.0 as i64, h.1.map(|x| x as i64).unwrap_or(-1)]
}

macro_rules! forward {
    ($show:expr, $x:ident => $key:expr) => {
        fn front(&mut self) -> Vec<i64> {
            self.0.next().map($show).unwrap_or_default()
        }
        fn nth(&mut self, n: usize) -> Vec<i64> {
            self.0.nth(n).map($show).unwrap_or_default()
        }
        fn rest(self: Box<Self>) -> Vec<i64> {
            let items: Vec<_> = self.0.collect();
            items.into_iter().flat_map($show).collect()
        }
        fn count(self: Box<Self>) -> usize {
            self.0.count()
        }
        fn last(self: Box<Self>) -> Vec<i64> {
            self.0.last().map($show).unwrap_or_default()
        }
        fn take(&mut self, n: usize) -> Vec<i64> {
            self.0.by_ref().take(n).flat_map($show).collect()
        }
        fn find(&mut self, k: i64) -> Vec<i64> {
            self.0.find(|$x| $key >= k).map($show).unwrap_or_default()
        }
        fn position(&mut self, k: i64) -> Vec<i64> {
            self.0.position(|$x| $key >= k).map(|i| vec![i as i64]).unwrap_or_default()
        }
        fn all_below(&mut self, k: i64) -> bool {
            self.0.all(|$x| $key < k)
        }
        fn fold(self: Box<Self>) -> Vec<i64> {
            self.0.fold(vec![], |mut a, x| {
                a.extend(Some(x).into_iter().flat_map($show));
                a
            })
        }
        fn each(self: Box<Self>) -> Vec<i64> {
            let mut a = vec![];
            self.0.for_each(|x| a.extend(Some(x).into_iter().flat_map($show)));
            a
        }
        fn step(self: Box<Self>, n: usize) -> Vec<i64> {
            self.0.step_by(n).flat_map($show).collect()
        }
        fn skip(self: Box<Self>, n: usize) -> Vec<i64> {
            self.0.skip(n).flat_map($show).collect()
        }
        fn min_by(self: Box<Self>) -> Vec<i64> {
            self.0.min_by_key(|$x| $key).map($show).unwrap_or_default()
        }
        fn max_by(self: Box<Self>) -> Vec<i64> {
            self.0.max_by_key(|$x| $key).map($show).unwrap_or_default()
        }
    };
}
macro_rules! exact {
    ($show:expr, $x:ident => $key:expr) => {
        fn back(&mut self) -> Vec<i64> {
            self.0.next_back().map($show).unwrap_or_default()
        }
        fn nth_back(&mut self, n: usize) -> Vec<i64> {
            self.0.nth_back(n).map($show).unwrap_or_default()
        }
        fn len(&self) -> Vec<i64> {
            let h = hint(self.0.size_hint());
            vec![ExactSizeIterator::len(&self.0) as i64, h[0], h[1]]
        }
        fn rest_rev(self: Box<Self>) -> Vec<i64> {
            self.0.rev().flat_map($show).collect()
        }
        fn rfind(&mut self, k: i64) -> Vec<i64> {
            self.0.rfind(|$x| $key <= k).map($show).unwrap_or_default()
        }
        fn rposition(&mut self, k: i64) -> Vec<i64> {
            self.0.rposition(|$x| $key <= k).map(|i| vec![i as i64]).unwrap_or_default()
        }
        fn rfold(self: Box<Self>) -> Vec<i64> {
            self.0.rfold(vec![], |mut a, x| {
                a.extend(Some(x).into_iter().flat_map($show));
                a
            })
        }
    };
}
macro_rules! ordered {
    ($show:expr) => {
        fn min(self: Box<Self>) -> Vec<i64> {
            self.0.min().map($show).unwrap_or_default()
        }
        fn max(self: Box<Self>) -> Vec<i64> {
            self.0.max().map($show).unwrap_or_default()
        }
    };
}

/// the type of a map's iterator cannot be named
pub struct MapIt<I>(pub I);
impl<K: Num + 'static, V: Num + 'static, I: DoubleEndedIterator<Item = (&'static K, &'static V)> + ExactSizeIterator> DynIt for MapIt<I> {
    forward!(|(k, v)| vec![k.num(), v.num()], x => x.0.num());
    exact!(|(k, v)| vec![k.num(), v.num()], x => x.0.num());
}

pub struct TreeIt<'a, S: NodeStore>(pub Iter<'a, S>);
impl<S: NodeStore + Clone + 'static> DynIt for TreeIt<'static, S>
where
    S::K: Num,
    S::V: Num + Clone,
{
    forward!(|(k, v)| vec![k.num(), v.num()], x => x.0.num());
    exact!(|(k, v)| vec![k.num(), v.num()], x => x.0.num());
    fn dup(&self) -> Box<dyn DynIt> {
        Box::new(TreeIt(self.0.clone()))
    }
}

pub struct OwnTreeIt<S: NodeStore>(pub IntoIter<S>);
impl<S: NodeStore> DynIt for OwnTreeIt<S>
where
    S::K: Num,
    S::V: Num,
{
    forward!(|(k, v)| vec![k.num(), v.num()], x => x.0.num());
    exact!(|(k, v)| vec![k.num(), v.num()], x => x.0.num());
}

pub struct SetIt<'a, K: Key>(pub sweep_bptree::iter::Iter<'a, K>);
impl<K: Key + Num> DynIt for SetIt<'static, K> {
    forward!(|k| vec![k.num()], x => x.num());
    exact!(|k| vec![k.num()], x => x.num());
    ordered!(|k| vec![k.num()]);
    fn dup(&self) -> Box<dyn DynIt> {
        Box::new(SetIt(self.0.clone()))
    }
}

pub struct OwnSetIt<K: Key>(pub sweep_bptree::iter::IntoIter<K>);
impl<K: Key + Num> DynIt for OwnSetIt<K> {
    forward!(|k| vec![k.num()], x => x.num());
    exact!(|k| vec![k.num()], x => x.num());
    ordered!(|k| vec![k.num()]);
}

pub struct UnionIt<'a, K: Key>(pub sweep_bptree::iter::Union<'a, K>);
impl<K: Key + Num> DynIt for UnionIt<'static, K> {
    forward!(|k| vec![k.num()], x => x.num());
    ordered!(|k| vec![k.num()]);
    fn len(&self) -> Vec<i64> {
        hint(self.0.size_hint()).to_vec()
    }
    fn dup(&self) -> Box<dyn DynIt> {
        Box::new(UnionIt(self.0.clone()))
    }
}
