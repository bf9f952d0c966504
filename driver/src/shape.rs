//! What descending visitors see.
use crate::augs::*;
use crate::{js, jss, Out};
use sweep_bptree::tree::visit::{DescendVisit, DescendVisitResult};

enum Node {
    Inner(Vec<i64>, Vec<Vec<i64>>),
    Leaf(Vec<i64>, Vec<i64>),
}

/// reports the node at the end of a path
struct Probe<'p, K, V> {
    path: &'p [usize],
    level: usize,
    _m: std::marker::PhantomData<(K, V)>,
}
impl<'p, K: KC, V: VC, A: DA<K, V>> DescendVisit<K::K, V::V, A> for Probe<'p, K, V> {
    type Result = Node;
    fn visit_inner(&mut self, keys: &[K::K], augs: &[A]) -> DescendVisitResult<Node> {
        if self.level < self.path.len() {
            self.level += 1;
            return DescendVisitResult::GoDown(self.path[self.level - 1]);
        }
        DescendVisitResult::Complete(Node::Inner(keys.iter().map(Num::num).collect(), augs.iter().map(|a| a.show()).collect()))
    }
    fn visit_leaf(&mut self, keys: &[K::K], values: &[V::V]) -> Option<Node> {
        Some(Node::Leaf(keys.iter().map(Num::num).collect(), values.iter().map(Num::num).collect()))
    }
}

#[derive(Default)]
struct Walk {
    ks: Vec<i64>,
    vs: Vec<i64>,
    nodes: Vec<String>,
}

fn walk<K: KC, V: VC, A: DA<K, V>, T: Host<K::K, V::V, A>>(h: &T, path: &mut Vec<usize>, w: &mut Walk) -> (usize, usize) {
    let me = w.nodes.len();
    w.nodes.push(String::new());
    let lo = w.ks.len() + 1;
    let node = h.visit_q(Probe::<K, V> { path, level: 0, _m: std::marker::PhantomData });
    match node {
        None => w.nodes[me] = "null".into(),
        Some(Node::Leaf(ks, vs)) => {
            w.ks.extend(&ks);
            w.vs.extend(&vs);
            w.nodes[me] =
                format!("{{\"d\":{},\"leaf\":1,\"lo\":{lo},\"hi\":{},\"keys\":{},\"augs\":[],\"ch\":[]}}", path.len(), w.ks.len(), js(&ks));
        }
        Some(Node::Inner(ks, augs)) => {
            let mut ch = vec![];
            if path.len() < 40 {
                for i in 0..=ks.len() {
                    path.push(i);
                    let (l, r) = walk::<K, V, A, T>(h, path, w);
                    ch.push(vec![l as i64, r as i64]);
                    path.pop();
                }
            }
            w.nodes[me] = format!(
                "{{\"d\":{},\"leaf\":0,\"lo\":{lo},\"hi\":{},\"keys\":{},\"augs\":{},\"ch\":{}}}",
                path.len(),
                w.ks.len(),
                js(&ks),
                jss(&augs),
                jss(&ch)
            );
        }
    }
    (lo, w.ks.len())
}

/// every node, in preorder, with the run of entries below it
pub fn shape<K: KC, V: VC, A: DA<K, V>, T: Host<K::K, V::V, A>>(h: &T) -> Out {
    let mut w = Walk::default();
    walk::<K, V, A, T>(h, &mut vec![], &mut w);
    Out {
        r: h.root().show(),
        extra: format!(",\"ks\":{},\"vs\":{},\"nodes\":[{}]", js(&w.ks), js(&w.vs), w.nodes.join(",")),
    }
}

/// a visitor that takes its decisions from the arguments: [handle, end, level, child...]
/// end: 0 answer at the leaf, 1 cancel at `level`, 2 complete at `level`, 3 child out of range at `level`,
/// 4 no answer at the leaf
struct Scripted<'p, K, V> {
    end: i64,
    at: usize,
    path: &'p [i64],
    level: usize,
    log: &'p mut Vec<String>,
    _m: std::marker::PhantomData<(K, V)>,
}
pub const LEAF: i64 = 555;
pub const DONE: i64 = 777;
impl<'p, K: KC, V: VC, A: DA<K, V>> DescendVisit<K::K, V::V, A> for Scripted<'p, K, V> {
    type Result = i64;
    fn visit_inner(&mut self, keys: &[K::K], augs: &[A]) -> DescendVisitResult<i64> {
        let ks: Vec<i64> = keys.iter().map(Num::num).collect();
        let aug: Vec<Vec<i64>> = augs.iter().map(|a| a.show()).collect();
        let level = self.level;
        self.level += 1;
        let here = level == self.at;
        let (i, d) = if here && self.end == 1 {
            (-1, DescendVisitResult::Cancel)
        } else if here && self.end == 2 {
            (-2, DescendVisitResult::Complete(DONE + level as i64))
        } else if here && self.end == 3 {
            let c = match self.path.first().copied().unwrap_or(0) % 5 {
                2 => 1 << 40,
                3 => usize::MAX,
                4 => 63.max(keys.len() + 1),
                extra => keys.len() + 1 + extra as usize,
            };
            (-3, DescendVisitResult::GoDown(c))
        } else {
            let c = self.path.get(level % self.path.len().max(1)).copied().unwrap_or(0) as usize % (keys.len() + 1);
            (c as i64, DescendVisitResult::GoDown(c))
        };
        self.log.push(format!("{{\"leaf\":0,\"ks\":{},\"vs\":[],\"augs\":{},\"i\":{i}}}", js(&ks), jss(&aug)));
        d
    }
    fn visit_leaf(&mut self, keys: &[K::K], values: &[V::V]) -> Option<i64> {
        let ks: Vec<i64> = keys.iter().map(Num::num).collect();
        let vs: Vec<i64> = values.iter().map(Num::num).collect();
        self.log.push(format!("{{\"leaf\":1,\"ks\":{},\"vs\":{},\"augs\":[],\"i\":0}}", js(&ks), js(&vs)));
        (self.end != 4).then_some(LEAF + ks.len() as i64)
    }
}

pub fn visit<K: KC, V: VC, A: DA<K, V>, T: Host<K::K, V::V, A>>(h: &T, a: &[i64]) -> Out {
    let mut log = vec![];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        h.visit_q(Scripted::<K, V> { end: a[1], at: a[2] as usize, path: &a[3..], level: 0, log: &mut log, _m: std::marker::PhantomData })
    }));
    let r = match r {
        Ok(Some(x)) => vec![x],
        Ok(None) => vec![],
        // only expected after an index out of range
        Err(e) => {
            if log.last().map(|s| s.ends_with("\"i\":-3}")) != Some(true) {
                std::panic::resume_unwind(e)
            }
            vec![-1]
        }
    };
    Out { r, extra: format!(",\"steps\":[{}]", log.join(",")) }
}
