//! Shared proptest strategies.
use crate::model::{Bulk, B};
use crate::runner::Tier;
use crate::terms::{Voc, STYLES, T};
use crate::world::{Commit, Step};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

#[derive(Clone, Copy, Debug)]
pub struct Size {
    pub nn: u32,
    pub np: u32,
    pub nv: u32,
    pub items: usize,
    pub bulk: u32,
}

pub fn voc(s: Size) -> impl Strategy<Value = Voc> {
    (0..STYLES, 1..=s.nn, 1..=s.np, 1..=s.nv).prop_map(|(style, nn, np, nv)| Voc { style, nn, np, nv })
}

pub fn triple(s: Size) -> impl Strategy<Value = T> {
    (0..s.nn, 0..s.np, 0..s.nn.max(s.nv), any::<bool>()).prop_map(|(s, p, o, v)| T { s, p, o, v })
}

pub fn bitem(s: Size) -> impl Strategy<Value = B> {
    prop_oneof![
        6 => (triple(s), prop::bool::weighted(0.25)).prop_map(|(t, i)| B::Add(t, i)),
        1 => (triple(s), prop::bool::weighted(0.25)).prop_map(|(t, i)| B::Rem(t, i)),
        1 => (0u32..1000, prop::bool::weighted(0.3)).prop_map(|(n, i)| B::AddEx(n, i)),
        4 => (0u32..1000, prop::bool::weighted(0.3)).prop_map(|(n, i)| B::RemEx(n, i)),
    ]
}

pub fn bulk(max: u32) -> impl Strategy<Value = Bulk> {
    (1..=max, any::<u32>(), 0u8..9, 0u8..5).prop_map(|(n, seed, rem, shape)| Bulk { n, seed, rem, shape })
}

pub fn commit_with<P: Strategy<Value = Option<u32>> + 'static>(s: Size, parent: P) -> BoxedStrategy<Commit> {
    let b = if s.bulk == 0 {
        Just(None).boxed()
    } else {
        prop_oneof![2 => Just(None), 3 => bulk(s.bulk).prop_map(Some)].boxed()
    };
    (parent, prop::collection::vec(bitem(s), 0..=s.items), b)
        .prop_map(|(parent, items, bulk)| Commit { parent, items, bulk })
        .boxed()
}

/// mostly linear chains, with some branching and some new base layers
pub fn parent() -> impl Strategy<Value = Option<u32>> {
    prop_oneof![
        8 => Just(Some(0u32)),
        4 => (0u32..8).prop_map(Some),
        1 => Just(None),
    ]
}

pub fn commit(s: Size) -> BoxedStrategy<Commit> {
    commit_with(s, parent())
}

pub const SMALL: Size = Size { nn: 6, np: 3, nv: 5, items: 8, bulk: 0 };
pub const MEDIUM: Size = Size { nn: 40, np: 12, nv: 40, items: 12, bulk: 120 };
pub const LARGE: Size = Size { nn: 700, np: 90, nv: 700, items: 6, bulk: 3000 };

pub struct Weights {
    pub commit: u32,
    pub abandon: u32,
    pub rollup: u32,
    pub rollup_upto: u32,
    pub imprecise: u32,
    pub squash: u32,
    pub squash_upto: u32,
    pub merge: u32,
    pub reopen: u32,
    pub forget: u32,
    pub transfer: u32,
    pub adopt: u32,
}

pub const COMMITS_ONLY: Weights = Weights {
    commit: 1, abandon: 0, rollup: 0, rollup_upto: 0, imprecise: 0, squash: 0, squash_upto: 0, merge: 0, reopen: 0, forget: 0, transfer: 0, adopt: 0,
};

pub fn step(s: Size, w: &Weights) -> BoxedStrategy<Step> {
    let mut v: Vec<(u32, BoxedStrategy<Step>)> = vec![];
    let near = || prop_oneof![3 => 0u32..2, 1 => 0u32..12];
    let mut add = |n: u32, s: BoxedStrategy<Step>| {
        if n > 0 {
            v.push((n, s));
        }
    };
    add(w.commit, commit(s).prop_map(Step::Commit).boxed());
    add(w.forget, near().prop_map(Step::Forget).boxed());
    add(w.rollup, near().prop_map(Step::Rollup).boxed());
    add(w.rollup_upto, (near(), 0u32..6).prop_map(|(a, b)| Step::RollupUpto(a, b)).boxed());
    add(w.imprecise, (near(), 0u32..6).prop_map(|(a, b)| Step::ImpreciseUpto(a, b)).boxed());
    add(w.squash, near().prop_map(Step::Squash).boxed());
    add(w.squash_upto, (near(), 0u32..6).prop_map(|(a, b)| Step::SquashUpto(a, b)).boxed());
    add(w.reopen, Just(Step::Reopen).boxed());
    add(w.merge, prop::collection::vec(0u32..12, 1..4).prop_map(Step::Merge).boxed());
    add(w.transfer, (0u8..4).prop_map(Step::Transfer).boxed());
    add(w.adopt, (0u32..3).prop_map(Step::Adopt).boxed());
    add(w.abandon, commit(s).prop_map(Step::Abandon).boxed());
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// a history of at least two commits followed by weighted steps
pub fn history(s: Size, w: &Weights, max: usize) -> BoxedStrategy<Vec<Step>> {
    (
        prop::collection::vec(commit(s).prop_map(Step::Commit), 1..=(max / 2).max(2)),
        prop::collection::vec(step(s, w), 0..=max),
    )
        .prop_map(|(mut a, b)| {
            a.extend(b);
            a
        })
        .boxed()
}

pub fn sized<Tv: std::fmt::Debug + 'static, F: Fn(Size) -> BoxedStrategy<Tv>>(tier: Tier, f: F) -> BoxedStrategy<Tv> {
    let large = if tier == Tier::Quick { 1 } else { 2 };
    prop_oneof![
        12 => f(SMALL),
        8 => f(MEDIUM),
        large => f(LARGE),
    ]
    .boxed()
}
