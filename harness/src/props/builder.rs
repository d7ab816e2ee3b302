//! C15: what a builder commits.
use crate::gen::*;
use crate::model::{Layer as ML, Set, B, K};
use crate::observe::*;
use crate::runner::*;
use crate::terms::Voc;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::sync::Arc;
use terminus_store::layer::Layer;
use terminus_store::store::{StoreLayer, StoreLayerBuilder};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum BOp {
    /// a call; flag: through with_builder
    Call(B, bool),
    /// flag: from the other store
    Delta(u32, bool),
    Diff(u32, bool),
    /// continue on a clone of the handle
    CloneHandle,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct BCase {
    pub voc: Voc,
    pub kind: u8,
    pub kind2: u8,
    pub steps: Vec<Step>,
    pub steps2: Vec<Step>,
    pub parent: Option<u32>,
    pub ops: Vec<BOp>,
    /// how to commit: 0 commit, 1 commit_no_load
    pub how: u8,
    pub perm: u32,
    pub later: Vec<BOp>,
}

pub struct C15;

fn lcg(x: &mut u64) -> u64 {
    *x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *x >> 33
}

struct Src {
    h: StoreLayer,
    m: ML,
}

/// One elementary request, with its target resolved.
#[derive(Clone, Debug)]
enum Req {
    Triple(K, bool, bool, bool),
    Delta(usize, bool),
    Diff(usize, bool),
    Clone,
}

async fn issue(
    b: &mut StoreLayerBuilder,
    voc: &Voc,
    parent: Option<(&ML, &StoreLayer)>,
    src: &[Vec<Src>; 2],
    req: &Req,
) -> std::io::Result<()> {
    match req {
        Req::Triple(k, add, byid, wb) => {
            let t = voc.triple(*k);
            let id = if *byid {
                parent.and_then(|(m, l)| if m.dict.knows(k) { l.value_triple_to_id(&t) } else { None })
            } else {
                None
            };
            match (id, add, wb) {
                (None, true, false) => b.add_value_triple(t),
                (None, false, false) => b.remove_value_triple(t),
                (Some(i), true, false) => b.add_id_triple(i),
                (Some(i), false, false) => b.remove_id_triple(i),
                (None, true, true) => b.with_builder(|x| x.add_value_triple(t)),
                (None, false, true) => b.with_builder(|x| x.remove_value_triple(t)),
                (Some(i), true, true) => b.with_builder(|x| x.add_id_triple(i)),
                (Some(i), false, true) => b.with_builder(|x| x.remove_id_triple(i)),
            }
        }
        Req::Delta(n, o) => b.apply_delta(&src[*o as usize][*n].h).await,
        Req::Diff(n, o) => b.apply_diff(&src[*o as usize][*n].h),
        Req::Clone => {
            *b = b.clone();
            Ok(())
        }
    }
}

fn resolve(voc: &Voc, ops: &[BOp], existing: &[K], src: &[Vec<Src>; 2]) -> Vec<Req> {
    let mut v = vec![];
    for op in ops {
        match op {
            BOp::Call(b, wb) => match *b {
                B::Add(t, i) => v.push(Req::Triple(voc.norm(t), true, i, *wb)),
                B::Rem(t, i) => v.push(Req::Triple(voc.norm(t), false, i, *wb)),
                B::AddEx(n, i) | B::RemEx(n, i) => {
                    if !existing.is_empty() {
                        v.push(Req::Triple(existing[n as usize % existing.len()], matches!(b, B::AddEx(..)), i, *wb));
                    }
                }
            },
            BOp::Delta(n, o) | BOp::Diff(n, o) => {
                let s = &src[*o as usize];
                if !s.is_empty() {
                    let n = *n as usize % s.len();
                    v.push(if matches!(op, BOp::Delta(..)) { Req::Delta(n, *o) } else { Req::Diff(n, *o) });
                }
            }
            BOp::CloneHandle => v.push(Req::Clone),
        }
    }
    v
}

fn effect(reqs: &[Req], pset: &Set, src: &[Vec<Src>; 2]) -> (Set, Set) {
    let (mut a, mut r) = (Set::new(), Set::new());
    for q in reqs {
        match q {
            Req::Triple(k, add, _, _) => {
                if *add {
                    a.insert(*k);
                } else {
                    r.insert(*k);
                }
            }
            Req::Delta(n, o) => {
                let m = &src[*o as usize][*n].m;
                a.extend(m.adds.iter().cloned());
                r.extend(m.rems.iter().cloned());
            }
            Req::Diff(n, o) => {
                let m = &src[*o as usize][*n].m;
                a.extend(m.set.difference(pset).cloned());
                r.extend(pset.difference(&m.set).cloned());
            }
            Req::Clone => (),
        }
    }
    (a, r)
}

impl Prop for C15 {
    type Case = BCase;
    const ID: &'static str = "C15";
    const RULE: &'static str = "distinct cases whose builder was given additions and removals, at least one by id or as delta/diff, and whose layer is not empty";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 6000 } else { 80000 }
    }
    fn strategy(tier: Tier) -> BoxedStrategy<BCase> {
        sized(tier, |s| {
            let w = Weights { commit: 6, abandon: 1, rollup: 2, rollup_upto: 1, imprecise: 1, squash: 1, squash_upto: 1, merge: 0, reopen: 1, forget: 1, transfer: 0, adopt: 0 };
            let op = move || {
                prop_oneof![
                    10 => (bitem(s), prop::bool::weighted(0.2)).prop_map(|(b, w)| BOp::Call(b, w)),
                    1 => (0u32..8, any::<bool>()).prop_map(|(n, o)| BOp::Delta(n, o)),
                    1 => (0u32..8, any::<bool>()).prop_map(|(n, o)| BOp::Diff(n, o)),
                    1 => Just(BOp::CloneHandle),
                ]
            };
            let max = if s.bulk > 200 { 3 } else { 5 };
            (
                (voc(s), 0u8..4, 0u8..4, history(s, &w, max), history(s, &w, 3)),
                (prop_oneof![5 => (0u32..6).prop_map(Some), 1 => Just(None)], prop::collection::vec(op(), 0..s.items * 3), 0u8..2, any::<u32>(), prop::collection::vec(op(), 0..4)),
            )
                .prop_map(|((voc, kind, kind2, steps, steps2), (parent, ops, how, perm, later))| BCase { voc, kind, kind2, steps, steps2, parent, ops, how, perm, later })
                .boxed()
        })
    }
    fn run(c: &BCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            for s in &c.steps {
                w.apply(s, ctx).await?;
            }
            let mut w2 = World::new(Kind::of(c.kind2), c.voc, ctx);
            for s in &c.steps2 {
                w2.apply(s, ctx).await?;
            }
            let mut src: [Vec<Src>; 2] = [vec![], vec![]];
            for ix in 0..w.layers.len() {
                let h = w.layer(ix).await?;
                src[0].push(Src { h, m: w.layers[ix].m.clone() });
            }
            for ix in 0..w2.layers.len() {
                let h = w2.layer(ix).await?;
                src[1].push(Src { h, m: w2.layers[ix].m.clone() });
            }
            let pix = c.parent.and_then(|n| w.pick(n));
            let pm = pix.map(|p| w.layers[p].m.clone());
            let pl = match pix {
                Some(p) => Some(w.layer(p).await?),
                None => None,
            };
            let empty = Arc::new(Set::new());
            let pset = pm.as_ref().map(|m| m.set.clone()).unwrap_or(empty);
            let existing: Vec<K> = pset.iter().cloned().collect();
            let parent = pm.as_ref().map(|m| (m, pl.as_ref().unwrap()));

            let reqs = resolve(&c.voc, &c.ops, &existing, &src);
            let later = resolve(&c.voc, &c.later, &existing, &src);
            let (a, r) = effect(&reqs, &pset, &src);
            let m = ML::commit(pix, pm.as_ref(), &a, &r);

            let open = || async {
                match &pl {
                    None => io("create_base_layer", w.store.create_base_layer().await),
                    Some(l) => io("open_write", l.open_write().await),
                }
            };
            let mut b = open().await?;
            let first = b.clone();
            if b.parent().map(|p| p.name()) != pl.as_ref().map(|p| p.name()) {
                return Err(Fail::new("builder:parent", "builder reports another parent"));
            }
            for q in &reqs {
                if b.committed() || first.committed() {
                    return Err(Fail::new("builder:committed-early", "committed() before commit"));
                }
                io("builder request", issue(&mut b, &c.voc, parent, &src, q).await)?;
                ctx.count("builder-requests", 1);
                match q {
                    Req::Delta(..) => ctx.label("apply_delta"),
                    Req::Diff(..) => ctx.label("apply_diff"),
                    Req::Triple(_, _, true, _) => ctx.label("by-id"),
                    _ => (),
                }
            }
            let name = b.name();
            let l = if c.how == 0 {
                io("commit", b.commit().await)?
            } else {
                io("commit_no_load", b.commit_no_load().await)?;
                io("get_layer_from_id", w.store.get_layer_from_id(name).await)?.ok_or_else(|| Fail::new("layer-missing", "committed layer is not found"))?
            };
            if l.name() != name || first.name() != name {
                return Err(Fail::new("builder:name", "committed layer has another name than its builder"));
            }
            if !b.committed() || !first.committed() {
                return Err(Fail::new("builder:not-committed", "committed() is false after commit"));
            }
            let ix = w.push(m, l.clone(), "builder");
            let before = snap(&w, &l, ix, "built layer").await?;
            snap_matches_model(&w, &l, &before, ix, "built layer").await?;
            check_contents(&c.voc, &l, &w.layers[ix].m, "built layer")?;

            // a builder that has committed refuses everything
            let again = b.commit().await;
            if again.is_ok() || b.commit_no_load().await.is_ok() || first.commit().await.is_ok() {
                return Err(Fail::new("builder:commit-twice", "a second commit succeeds"));
            }
            for q in &later {
                let changes = match q {
                    Req::Triple(..) => true,
                    Req::Clone => false,
                    _ => {
                        let (a, r) = effect(std::slice::from_ref(q), &pset, &src);
                        !a.is_empty() || !r.is_empty()
                    }
                };
                let res = issue(&mut b, &c.voc, parent, &src, q).await;
                if changes && res.is_ok() {
                    return Err(Fail::new("builder:change-after-commit", format!("{:?} succeeds after the commit", q)));
                }
                ctx.label("change-after-commit");
            }
            for fresh in [false, true] {
                let l = if fresh {
                    io("get_layer_from_id", w.base.open().get_layer_from_id(name).await)?.ok_or_else(|| Fail::new("layer-missing", "committed layer is not found"))?
                } else {
                    l.clone()
                };
                let s = snap(&w, &l, ix, "after refused changes").await?;
                compare_snaps(&before, &s, "after refused changes")?;
            }

            // the same requests in another order, some repeated, give the same layer
            let mut perm: Vec<Req> = reqs.clone();
            let mut x = c.perm as u64;
            for i in (1..perm.len()).rev() {
                perm.swap(i, lcg(&mut x) as usize % (i + 1));
            }
            let dup: Vec<Req> = perm.iter().filter(|_| lcg(&mut x) % 4 == 0).cloned().collect();
            perm.extend(dup);
            // address triples differently
            for q in perm.iter_mut() {
                if let Req::Triple(_, _, byid, wb) = q {
                    if lcg(&mut x) % 3 == 0 {
                        *byid = !*byid;
                    }
                    if lcg(&mut x) % 5 == 0 {
                        *wb = !*wb;
                    }
                }
            }
            let mut b2 = match &pl {
                None => io("create_base_layer", w.store.create_base_layer().await)?,
                Some(l) => io("open_write", l.open_write().await)?,
            };
            for q in &perm {
                io("builder request", issue(&mut b2, &c.voc, parent, &src, q).await)?;
            }
            let l2 = io("commit", b2.commit().await)?;
            let m2 = w.layers[ix].m.clone();
            let ix2 = w.push(m2, l2.clone(), "builder, permuted");
            let s2 = snap(&w, &l2, ix2, "permuted build").await?;
            let mut want = before.clone();
            want.name = s2.name;
            *want.stack.last_mut().unwrap() = s2.name;
            compare_snaps(&want, &s2, "permuted build")?;

            if !a.is_empty() && !r.is_empty() && !w.layers[ix].m.set.is_empty() && reqs.iter().any(|q| !matches!(q, Req::Triple(_, _, false, _) | Req::Clone)) {
                ctx.nontrivial = true;
            }
            if a.intersection(&r).next().is_some() {
                ctx.label("cancellation");
            }
            if w.layers[ix].m.adds.is_empty() && w.layers[ix].m.rems.is_empty() {
                ctx.label("no net change");
            }
            // a pure diff
            if let (Some(pl), false) = (&pl, src[0].is_empty()) {
                let o = &src[(c.perm & 1) as usize];
                if !o.is_empty() {
                    let o = &o[c.perm as usize / 2 % o.len()];
                    let b = io("open_write", pl.open_write().await)?;
                    io("apply_diff", b.apply_diff(&o.h))?;
                    let l = io("commit", b.commit().await)?;
                    check_contents(&c.voc, &l, &o.m, "layer made by apply_diff")?;
                }
            }
            Ok(())
        })
    }
}

