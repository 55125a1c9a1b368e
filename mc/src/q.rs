//! Query terms: syntax, compilation to banyan queries, reference semantics.
use crate::types::*;
use banyan::index::{BranchIndex, CompactSeq, LeafIndex};
use banyan::query::*;
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum B {
    I(u64),
    X(u64),
    U,
}
impl B {
    fn bound(self) -> Bound<u64> {
        match self {
            B::I(x) => Bound::Included(x),
            B::X(x) => Bound::Excluded(x),
            B::U => Bound::Unbounded,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Q {
    All,
    Empty,
    /// offset range with arbitrary bounds
    Off(B, B),
    /// std range types: kind 0 `a..b`, 1 `a..=b`, 2 `a..`, 3 `..b`, 4 `..=b`, 5 `..`
    Std(u8, u64, u64),
    /// keys within lo..=hi
    Key(u64, u64),
    And(Box<Q>, Box<Q>),
    Or(Box<Q>, Box<Q>),
    Dyn(Box<Q>),
}

#[derive(Clone, Debug)]
pub struct KeyQ(pub u64, pub u64);
impl Query<TT> for KeyQ {
    fn containing(&self, _o: u64, x: &LeafIndex<TT>, res: &mut [bool]) {
        for (i, r) in res.iter_mut().enumerate() {
            *r = *r
                && x.keys
                    .get(i)
                    .map(|k| k.0 >= self.0 && k.0 <= self.1)
                    .unwrap_or(false);
        }
    }
    fn intersecting(&self, _o: u64, x: &BranchIndex<TT>, res: &mut [bool]) {
        for (i, r) in res.iter_mut().enumerate() {
            *r = *r
                && x.summaries
                    .get(i)
                    .map(|k| k.max >= self.0 && k.min <= self.1)
                    .unwrap_or(false);
        }
    }
}

/// Arc<dyn Query> that is Clone + Debug (newtype so that it can be nested in AndQuery etc)
pub type DQ = Arc<dyn Query<TT>>;

impl Q {
    pub fn compile(&self) -> DQ {
        match self {
            Q::All => Arc::new(AllQuery),
            Q::Empty => Arc::new(EmptyQuery),
            Q::Off(a, b) => Arc::new(OffsetRangeQuery::from((a.bound(), b.bound()))),
            Q::Std(0, a, b) => Arc::new(OffsetRangeQuery::from(*a..*b)),
            Q::Std(1, a, b) => Arc::new(OffsetRangeQuery::from(*a..=*b)),
            Q::Std(2, a, _) => Arc::new(OffsetRangeQuery::from(*a..)),
            Q::Std(3, _, b) => Arc::new(OffsetRangeQuery::from(..*b)),
            Q::Std(4, _, b) => Arc::new(OffsetRangeQuery::from(..=*b)),
            Q::Std(_, _, _) => Arc::new(OffsetRangeQuery::from(..)),
            Q::Key(a, b) => Arc::new(KeyQ(*a, *b)),
            Q::And(a, b) => Arc::new(AndQuery(a.compile(), b.compile())),
            Q::Or(a, b) => Arc::new(OrQuery(a.compile(), b.compile())),
            Q::Dyn(a) => a.compile().boxed(),
        }
    }
    /// children of a branch that may match, as far as their summaries and the range of the branch tell
    pub fn may(&self, off: u64, b: &BranchIndex<TT>) -> Vec<bool> {
        let n = b.summaries.len();
        let end = off + b.count;
        let rng = |lo: bool, hi: bool| vec![lo && hi; n];
        match self {
            Q::All => vec![true; n],
            Q::Empty => vec![false; n],
            Q::Off(x, y) => rng(
                match x {
                    B::I(x) | B::X(x) => *x < end,
                    B::U => true,
                },
                match y {
                    B::I(y) => *y >= off,
                    B::X(y) => *y > off,
                    B::U => true,
                },
            ),
            Q::Std(0, x, y) => rng(*x < end, *y > off),
            Q::Std(1, x, y) => rng(*x < end, *y >= off),
            Q::Std(2, x, _) => rng(*x < end, true),
            Q::Std(3, _, y) => rng(true, *y > off),
            Q::Std(4, _, y) => rng(true, *y >= off),
            Q::Std(_, _, _) => vec![true; n],
            Q::Key(_, _) => {
                let mut r = vec![true; n];
                self.compile().intersecting(off, b, &mut r);
                r
            }
            Q::And(x, y) => x.may(off, b).iter().zip(y.may(off, b)).map(|(x, y)| *x && y).collect(),
            Q::Or(x, y) => x.may(off, b).iter().zip(y.may(off, b)).map(|(x, y)| *x || y).collect(),
            Q::Dyn(x) => x.may(off, b),
        }
    }
    pub fn matches(&self, off: u64, k: &K) -> bool {
        match self {
            Q::All => true,
            Q::Empty => false,
            Q::Off(a, b) => {
                (match a {
                    B::I(x) => off >= *x,
                    B::X(x) => off > *x,
                    B::U => true,
                }) && (match b {
                    B::I(x) => off <= *x,
                    B::X(x) => off < *x,
                    B::U => true,
                })
            }
            Q::Std(0, a, b) => off >= *a && off < *b,
            Q::Std(1, a, b) => off >= *a && off <= *b,
            Q::Std(2, a, _) => off >= *a,
            Q::Std(3, _, b) => off < *b,
            Q::Std(4, _, b) => off <= *b,
            Q::Std(_, _, _) => true,
            Q::Key(a, b) => k.0 >= *a && k.0 <= *b,
            Q::And(a, b) => a.matches(off, k) && b.matches(off, k),
            Q::Or(a, b) => a.matches(off, k) || b.matches(off, k),
            Q::Dyn(a) => a.matches(off, k),
        }
    }
}

pub fn and(a: Q, b: Q) -> Q {
    Q::And(Box::new(a), Box::new(b))
}
pub fn or(a: Q, b: Q) -> Q {
    Q::Or(Box::new(a), Box::new(b))
}
