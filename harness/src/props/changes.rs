//! C04, C05, C06, C07, C08, C19: what stays the same and what is reported about change and lineage.
use crate::gen::{Weights, COMMITS_ONLY};
use crate::observe::*;
use crate::props::history::{hist, Hist};
use crate::runner::{Ctx, Fail, Prop, Tier, R};
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use std::collections::BTreeSet;
use std::sync::Arc;
use terminus_store::layer::{IdTriple, Layer, TripleChange};
use terminus_store::storage::LayerStore;

pub struct C04;
impl Prop for C04 {
    type Case = Hist;
    const ID: &'static str = "C04";
    const RULE: &'static str = "distinct histories in which an operation other than a commit followed an already snapshotted layer with a parent";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1500 } else { 20000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(
            t,
            Weights { commit: 4, abandon: 2, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 1, forget: 2, transfer: 0, adopt: 1 },
            8,
        )
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            w.max_layers = 16;
            let mut watch = Watch::new();
            let graph = io("create", w.store.create("watch").await)?;
            for (i, s) in c.steps.iter().enumerate() {
                let new = w.apply(s, ctx).await?;
                if !matches!(s, Step::Commit(_)) && w.layers.iter().any(|l| l.m.parent.is_some()) {
                    ctx.nontrivial = true;
                }
                // heads move and labels vanish without consequences for layers
                if i % 3 == 1 && !w.layers.is_empty() {
                    let l = w.layer(i % w.layers.len()).await?;
                    if matches!(w.base, Base::Mem(..)) || !w.layers.is_empty() {
                        let g = io("open", w.store.open("watch").await)?.ok_or_else(|| Fail::new("label-lost", "label is gone"))?;
                        io("force_set_head", g.force_set_head(&l).await)?;
                    }
                }
                let mut which: Vec<usize> = new.into_iter().collect();
                // newly created helper layers too
                for ix in watch.snaps.len()..w.layers.len() {
                    if !which.contains(&ix) {
                        which.push(ix);
                    }
                }
                if !w.layers.is_empty() {
                    which.push((i * 7) % w.layers.len());
                }
                watch.look(&mut w, &which, "after an operation", ctx).await?;
            }
            watch.all(&mut w, "at the end", ctx).await?;
            io("delete", w.store.delete("watch").await)?;
            drop(graph);
            watch.all(&mut w, "after deleting the label", ctx).await?;
            for ix in 0..w.layers.len() {
                if w.layers[ix].m.set.len() < 200 {
                    let l = w.layer(ix).await?;
                    check_everything(&w, &l, ix, "at the end", 30).await.map_err(|f| f.ctx(format!("layer #{} ({})", ix, w.layers[ix].how)))?;
                }
            }
            w.reopen();
            watch.all(&mut w, "after reopening", ctx).await
        })
    }
}

pub struct C05;
impl Prop for C05 {
    type Case = Hist;
    const ID: &'static str = "C05";
    const RULE: &'static str = "distinct histories with a child layer that has both net additions and net removals";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1200 } else { 16000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(t, Weights { commit: 8, rollup: 2, rollup_upto: 2, squash: 1, squash_upto: 1, forget: 2, reopen: 1, adopt: 1, ..COMMITS_ONLY }, 8)
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            for s in &c.steps {
                w.apply(s, ctx).await?;
            }
            let raw = w.base.raw();
            let cached: Arc<dyn LayerStore> = Arc::new(w.base.cached());
            let n = w.layers.len();
            let large = w.layers.iter().any(|l| l.m.set.len() > 300);
            for ix in n.saturating_sub(if large { 2 } else { 5 })..n {
                let m = w.layers[ix].m.clone();
                let l = w.layer(ix).await?;
                let (a, r) = model_changes(&w, &l, ix).await?;
                if m.parent.is_some() && !a.is_empty() && !r.is_empty() {
                    ctx.nontrivial = true;
                }
                let nn = (m.dict.nodes.len() + m.dict.values.len()) as u64;
                let np = m.dict.preds.len() as u64;
                let b = if large { 6 } else { 16 };
                let name = w.layers[ix].name;
                let st = if w.layers[ix].rolled > 0 { "rolled-up layer" } else { "layer" };
                check_changes(&l, &a, &r, nn, np, &format!("{}, loaded:", st), b).await?;
                check_changes(&ByName(raw.clone(), name), &a, &r, nn, np, &format!("{}, from disk:", st), if large { 5 } else { 10 }).await?;
                // not in this cache yet, then in it
                check_changes(&ByName(cached.clone(), name), &a, &r, nn, np, &format!("{}, uncached:", st), 4).await?;
                let held = io("get_layer", cached.get_layer(name).await)?.ok_or_else(|| Fail::new("layer-missing", "layer not found by a second store"))?;
                check_changes(&ByName(cached.clone(), name), &a, &r, nn, np, &format!("{}, cached:", st), b).await?;
                if st == "rolled-up layer" {
                    ctx.label("rolled-up layer");
                }
                drop(held);
                for (sw, st) in [("uncached", raw.clone()), ("cached", cached.clone())] {
                    let all = expect_ids(&w.voc, &l, &m.set)?;
                    net(&format!("{} net changes", sw), io("layer_changes", st.layer_changes(name).await)?, &all, &Default::default())?;
                    for up in w.path(ix) {
                        if up != ix {
                            let pm = &w.layers[up].m;
                            let a = expect_ids(&w.voc, &l, &diff_set(&m.set, &pm.set))?;
                            let r = expect_ids(&w.voc, &l, &diff_set(&pm.set, &m.set))?;
                            let it = io("layer_changes_upto", st.layer_changes_upto(name, w.layers[up].name).await)?;
                            net(&format!("{} net changes since an ancestor", sw), it, &a, &r)?;
                        }
                    }
                }
                ctx.count("layers-compared", 1);
            }
            Ok(())
        })
    }
}

pub struct C06;
impl Prop for C06 {
    type Case = Hist;
    const ID: &'static str = "C06";
    const RULE: &'static str = "distinct histories in which a rollup covered at least two layers, one of them changing inherited data or a term";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 2000 } else { 30000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(t, Weights { commit: 6, rollup: 3, rollup_upto: 4, imprecise: 3, reopen: 2, forget: 2, squash: 1, squash_upto: 1, adopt: 1, ..COMMITS_ONLY }, 12)
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            w.max_layers = 14;
            let mut watch = Watch::new();
            for s in &c.steps {
                let new = w.apply(s, ctx).await?;
                let roll = matches!(s, Step::Rollup(_) | Step::RollupUpto(..) | Step::ImpreciseUpto(..));
                match new {
                    Some(ix) => {
                        let from = watch.snaps.len();
                        let which: Vec<usize> = (from..w.layers.len()).collect();
                        watch.look(&mut w, &which, "new layer", ctx).await?;
                        let _ = ix;
                    }
                    None if roll && w.rollups > 0 => {
                        ctx.nontrivial = true;
                        watch.all(&mut w, "after a rollup", ctx).await?;
                    }
                    _ => {}
                }
            }
            let old: Vec<_> = w.layers.iter().map(|l| l.handle.clone()).collect();
            w.reopen();
            w.keep = true;
            watch.all(&mut w, "reopened", ctx).await?;
            for ix in 0..w.layers.len() {
                if w.layers[ix].m.set.len() < 300 {
                    let l = w.layer(ix).await?;
                    check_everything(&w, &l, ix, "reopened", 40).await.map_err(|f| f.ctx(format!("layer #{} ({})", ix, w.layers[ix].how)))?;
                    if let Some(l) = &old[ix] {
                        check_everything(&w, l, ix, "old handle", 40).await.map_err(|f| f.ctx(format!("layer #{} ({})", ix, w.layers[ix].how)))?;
                    }
                }
            }
            // every layer still works as a parent, from a fresh load
            let n = w.layers.len();
            w.max_layers = n + 6;
            for i in 0..n.min(3) {
                let ixs = watch.snaps.len();
                let commit = Commit { parent: Some((i * 3) as u32), items: tail_items(), bulk: None };
                w.apply(&Step::Commit(commit), ctx).await?;
                let which: Vec<usize> = (ixs..w.layers.len()).collect();
                watch.look(&mut w, &which, "child of a rolled-up layer", ctx).await?;
            }
            watch.all(&mut w, "after committing on rolled-up layers", ctx).await
        })
    }
}

fn tail_items() -> Vec<crate::model::B> {
    use crate::model::B::*;
    vec![Add(t(0, 0, 1, false), true), Add(t(1, 1, 0, true), false), RemEx(0, true), RemEx(3, false), Add(t(2, 0, 4, true), false)]
}

pub struct C07;
impl Prop for C07 {
    type Case = Hist;
    const ID: &'static str = "C07";
    const RULE: &'static str = "distinct histories in which a layer of at least two generations was squashed";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 2000 } else { 30000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(t, Weights { commit: 6, squash: 3, squash_upto: 4, rollup: 1, rollup_upto: 1, reopen: 1, forget: 2, adopt: 1, ..COMMITS_ONLY }, 10)
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            w.max_layers = 16;
            let mut watch = Watch::new();
            for s in &c.steps {
                let from = w.layers.len();
                let new = w.apply(s, ctx).await?;
                if let Some(ix) = new {
                    if matches!(s, Step::Squash(_) | Step::SquashUpto(..)) {
                        let l = w.layer(ix).await?;
                        check_everything(&w, &l, ix, "squashed layer", 40).await?;
                        if w.layers[ix].m.set.len() > 0 {
                            ctx.nontrivial = true;
                        }
                        watch.all(&mut w, "after a squash", ctx).await?;
                    } else {
                        let which: Vec<usize> = (from..w.layers.len()).collect();
                        watch.look(&mut w, &which, "new layer", ctx).await?;
                    }
                }
            }
            w.reopen();
            watch.all(&mut w, "reopened", ctx).await
        })
    }
}

pub struct C08;
impl Prop for C08 {
    type Case = Hist;
    const ID: &'static str = "C08";
    const RULE: &'static str = "distinct histories in which at least two non-empty base layers were merged";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1500 } else { 20000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        crate::gen::sized(t, move |s| {
            let max = if s.bulk > 1000 { 2usize } else { 4 };
            let par = || prop_oneof![3 => Just(None), 1 => Just(Some(0u32))];
            (
                crate::gen::voc(s),
                0u8..4,
                any::<bool>(),
                proptest::collection::vec(crate::gen::commit_with(s, par()).prop_map(Step::Commit), 1..=max),
                proptest::collection::vec(
                    prop_oneof![
                        4 => proptest::collection::vec(0u32..8, 1..5).prop_map(Step::Merge),
                        2 => crate::gen::commit_with(s, par()).prop_map(Step::Commit),
                        2 => (0u32..6).prop_map(Step::Rollup),
                        1 => (0u32..3).prop_map(Step::Adopt),
                        1 => (0u32..6).prop_map(Step::Squash),
                        1 => Just(Step::Reopen),
                    ],
                    1..=max,
                ),
                proptest::collection::vec(0u32..8, 1..5).prop_map(Step::Merge),
            )
                .prop_map(|(voc, kind, keep, mut a, b, m)| {
                    a.extend(b);
                    a.push(m);
                    Hist { voc, kind, keep, steps: a }
                })
                .boxed()
        })
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            w.max_layers = 14;
            let mut watch = Watch::new();
            for s in &c.steps {
                let from = w.layers.len();
                let new = w.apply(s, ctx).await?;
                if let (Some(ix), Step::Merge(v)) = (new, s) {
                    let l = w.layer(ix).await?;
                    check_everything(&w, &l, ix, "merged layer", 40).await?;
                    if v.len() > 1 && !w.layers[ix].m.set.is_empty() {
                        ctx.nontrivial = true;
                    }
                }
                let which: Vec<usize> = (from..w.layers.len()).collect();
                watch.look(&mut w, &which, "new layer", ctx).await?;
                if matches!(s, Step::Merge(_)) {
                    watch.all(&mut w, "after a merge", ctx).await?;
                }
            }
            w.reopen();
            watch.all(&mut w, "reopened", ctx).await
        })
    }
}

pub struct C19;
impl Prop for C19 {
    type Case = Hist;
    const ID: &'static str = "C19";
    const RULE: &'static str = "distinct histories with a layer of at least three generations";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1100 } else { 20000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        let small = crate::gen::Size { nn: 4, np: 2, nv: 3, items: 3, bulk: 0 };
        let w = Weights { commit: 8, abandon: 1, rollup: 2, rollup_upto: 3, imprecise: 2, squash: 1, squash_upto: 2, merge: 1, reopen: 1, forget: 2, transfer: 1, adopt: 1 };
        let _ = t;
        (crate::gen::voc(small), 0u8..4, any::<bool>(), crate::gen::history(small, &w, 16))
            .prop_map(|(voc, kind, keep, steps)| Hist { voc, kind, keep, steps })
            .boxed()
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            w.max_layers = 18;
            for s in &c.steps {
                let new = w.apply(s, ctx).await?;
                if new.is_some() || matches!(s, Step::Rollup(_) | Step::RollupUpto(..) | Step::ImpreciseUpto(..) | Step::Transfer(_)) {
                    lineage(&mut w, ctx, false).await?;
                }
            }
            w.reopen();
            lineage(&mut w, ctx, true).await
        })
    }
}

async fn lineage(w: &mut World, ctx: &mut Ctx, full: bool) -> R<()> {
    let n = w.layers.len();
    let raw = w.base.raw();
    for ix in 0..n {
        if !full && n > 5 && ix % 3 != (n % 3) && ix + 2 < n {
            continue;
        }
        let path: Vec<Name> = w.path(ix).iter().map(|i| w.layers[*i].name).collect();
        let want_parent = w.layers[ix].m.parent.map(|p| w.layers[p].name);
        if path.len() >= 3 {
            ctx.nontrivial = true;
        }
        let bad = |s: &str, m: String| Err(Fail::new(format!("lineage:{}", s), format!("layer #{} ({}): {}", ix, w.layers[ix].how, m)));
        // without loading
        let p = io("get_layer_parent_name", raw.get_layer_parent_name(w.layers[ix].name).await)?;
        if p != want_parent {
            return bad("stored-parent", format!("stored parent {:?}, expected {:?}", p, want_parent));
        }
        let st = io("retrieve_layer_stack_names", raw.retrieve_layer_stack_names(w.layers[ix].name).await)?;
        if st != path {
            return bad("stored-stack", format!("stored stack has {} names, expected {}", st.len(), path.len()));
        }
        for (k, up) in path.iter().enumerate() {
            if k + 1 < path.len() {
                let part = io("retrieve_layer_stack_names_upto", raw.retrieve_layer_stack_names_upto(w.layers[ix].name, *up).await)?;
                if part != path[k + 1..] {
                    return bad("stack-upto", format!("names up to generation {} are {:?}", k, part.len()));
                }
            }
        }
        for a in 0..n {
            let is = path.contains(&w.layers[a].name);
            let got = io("layer_is_ancestor_of", raw.layer_is_ancestor_of(w.layers[ix].name, w.layers[a].name).await)?;
            if got != is {
                return bad("ancestor", format!("is layer #{} an ancestor? answered {}, expected {}", a, got, is));
            }
        }
        let cached: Arc<dyn LayerStore> = Arc::new(w.base.cached());
        for a in (0..n).step_by(2) {
            let is = path.contains(&w.layers[a].name);
            let got = io("layer_is_ancestor_of", cached.layer_is_ancestor_of(w.layers[ix].name, w.layers[a].name).await)?;
            if got != is {
                return bad("ancestor", format!("is layer #{} an ancestor (cached store)? answered {}, expected {}", a, got, is));
            }
        }
        let p = io("get_layer_parent_name", cached.get_layer_parent_name(w.layers[ix].name).await)?;
        if p != want_parent {
            return bad("stored-parent", format!("parent {:?}, expected {:?}", p, want_parent));
        }
        // of a layer that is in the cache of the store
        let warm: Arc<dyn LayerStore> = Arc::new(w.base.cached());
        let held = io("get_layer", warm.get_layer(w.layers[ix].name).await)?;
        let p = io("get_layer_parent_name", warm.get_layer_parent_name(w.layers[ix].name).await)?;
        if p != want_parent {
            return bad("cached-parent", format!("parent {:?} by a store that has the layer loaded, expected {:?}", p, want_parent));
        }
        let st = io("retrieve_layer_stack_names", warm.retrieve_layer_stack_names(w.layers[ix].name).await)?;
        if st != path {
            return bad("cached-stack", format!("a store that has the layer loaded gives a stack of {} names, expected {}", st.len(), path.len()));
        }
        let a = (ix * 7 + 3) % n;
        let is = path.contains(&w.layers[a].name);
        let got = io("layer_is_ancestor_of", warm.layer_is_ancestor_of(w.layers[ix].name, w.layers[a].name).await)?;
        if got != is {
            return bad("ancestor", format!("is layer #{} an ancestor (of a loaded layer)? answered {}, expected {}", a, got, is));
        }
        drop(held);
        // with the layer loaded
        let l = w.layer(ix).await?;
        let bad = |s: &str, m: String| Err(Fail::new(format!("lineage:{}", s), format!("layer #{} ({}): {}", ix, w.layers[ix].how, m)));
        if l.name() != w.layers[ix].name {
            return bad("name", format!("name {:?}", l.name()));
        }
        if l.parent_name() != want_parent {
            return bad("parent", format!("parent_name {:?}, expected {:?}", l.parent_name(), want_parent));
        }
        let p = io("parent", l.parent().await)?.map(|p| p.name());
        if p != want_parent {
            return bad("parent", format!("parent() {:?}, expected {:?}", p, want_parent));
        }
        let st = io("retrieve_layer_stack_names", l.retrieve_layer_stack_names().await)?;
        if st != path {
            return bad("stack", format!("stack {} names, expected {}", st.len(), path.len()));
        }
        // the whole chain of parents, one by one
        if full {
            let mut cur = l.clone();
            let mut names = vec![cur.name()];
            while let Some(p) = io("parent", cur.parent().await)? {
                names.push(p.name());
                cur = p;
                if names.len() > 60 {
                    return bad("cycle", "endless chain of parents".into());
                }
            }
            names.reverse();
            if names != path {
                return bad("chain", format!("chain of parents has {} names, expected {}", names.len(), path.len()));
            }
        }
        ctx.count("layers-compared", 1);
    }
    Ok(())
}

fn net<I: Iterator<Item = (TripleChange, IdTriple)>>(what: &str, it: I, a: &BTreeSet<IdTriple>, r: &BTreeSet<IdTriple>) -> R<()> {
    let v: Vec<(TripleChange, IdTriple)> = it.take((a.len() + r.len()) * 2 + 100).collect();
    let ga: Vec<IdTriple> = v.iter().filter(|x| x.0 == TripleChange::Addition).map(|x| x.1).collect();
    let gr: Vec<IdTriple> = v.iter().filter(|x| x.0 == TripleChange::Removal).map(|x| x.1).collect();
    same(&format!("{} (additions)", what), &ga, a)?;
    same(&format!("{} (removals)", what), &gr, r)
}
