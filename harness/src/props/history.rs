//! C01, C02, C03: committed graphs, pattern queries, dictionaries.
use crate::gen::{self, Weights, COMMITS_ONLY};
use crate::runner::{Ctx, Prop, Tier, R};
use crate::terms::Voc;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hist {
    pub voc: Voc,
    pub kind: u8,
    pub keep: bool,
    pub steps: Vec<Step>,
}

pub fn hist(tier: Tier, w: Weights, max: usize) -> BoxedStrategy<Hist> {
    let w = std::rc::Rc::new(w);
    gen::sized(tier, move |s| {
        let max = if s.bulk > 1000 { max.min(6) } else { max };
        (
            gen::voc(s),
            prop_oneof![3 => Just(0u8), 1 => 1u8..4],
            any::<bool>(),
            gen::history(s, &w, max),
        )
            .prop_map(|(voc, kind, keep, steps)| Hist { voc, kind, keep, steps })
            .boxed()
    })
}

pub fn block<F: std::future::Future<Output = R<()>>>(ctx_rt: &std::sync::Arc<tokio::runtime::Runtime>, f: F) -> R<()> {
    ctx_rt.clone().block_on(f)
}

pub struct C01;
impl Prop for C01 {
    type Case = Hist;
    const ID: &'static str = "C01";
    const RULE: &'static str = "distinct histories in which some layer with a parent added a triple or removed an inherited one";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 4000 } else { 60000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(t, Weights { commit: 8, forget: 2, reopen: 1, ..COMMITS_ONLY }, 10)
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            for s in &c.steps {
                if let Some(ix) = w.apply(s, ctx).await? {
                    let l = w.layer(ix).await?;
                    check_contents(&w.voc, &l, &w.layers[ix].m, "new layer")?;
                    if w.layers[ix].m.parent.is_some() && (!w.layers[ix].m.adds.is_empty() || !w.layers[ix].m.rems.is_empty()) {
                        ctx.nontrivial = true;
                    }
                }
            }
            for fresh in [false, true] {
                if fresh {
                    w.reopen();
                }
                let n = w.layers.len();
                let what = if fresh { "layer loaded afresh" } else { "layer" };
                // children first half of the time, so that ancestors get loaded through them
                for i in 0..n {
                    let ix = if c.keep { i } else { n - 1 - i };
                    let l = w.layer(ix).await?;
                    let m = w.layers[ix].m.clone();
                    check_contents(&w.voc, &l, &m, what)?;
                    check_existence(&w.voc, &l, &m, what, 1500)?;
                    ctx.count("layers-compared", 1);
                    ctx.count("triples-compared", m.set.len() as u64);
                    if m.depth >= 4 {
                        ctx.label("depth>=4");
                    }
                }
            }
            Ok(())
        })
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = Hist;
    const ID: &'static str = "C02";
    const RULE: &'static str = "distinct histories with a layer of at least two generations that has triples, all pattern queries compared on it";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3000 } else { 40000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(
            t,
            Weights { commit: 8, forget: 1, rollup: 2, rollup_upto: 2, squash: 1, reopen: 1, adopt: 1, ..COMMITS_ONLY },
            10,
        )
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            for s in &c.steps {
                w.apply(s, ctx).await?;
            }
            for fresh in [false, true] {
                if fresh {
                    w.reopen();
                }
                let n = w.layers.len();
                let lo = n.saturating_sub(if w.voc.nn > 100 { 3 } else { 8 });
                for ix in lo..n {
                    let l = w.layer(ix).await?;
                    let m = w.layers[ix].m.clone();
                    let want = expect_ids(&w.voc, &l, &m.set)?;
                    let pairs = if m.set.len() > 300 { 60 } else { 150 };
                    check_patterns(&l, &want, "layer", pairs)?;
                    ctx.count("layers-compared", 1);
                    if m.depth > 1 && !m.set.is_empty() {
                        ctx.nontrivial = true;
                    }
                    if w.layers[ix].rolled > 0 {
                        ctx.label("queried-rolled-up-layer");
                    }
                }
            }
            Ok(())
        })
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = Hist;
    const ID: &'static str = "C03";
    const RULE: &'static str = "distinct histories with a layer of at least two generations, the later of which introduces terms";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3000 } else { 40000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        hist(
            t,
            Weights { commit: 8, forget: 1, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, reopen: 1, adopt: 1, ..COMMITS_ONLY },
            10,
        )
    }
    fn run(c: &Hist, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = adopts(&c.steps);
            w.keep = c.keep;
            let mut seen: Vec<Option<Ids>> = vec![];
            for s in &c.steps {
                let new = w.apply(s, ctx).await?;
                while seen.len() < w.layers.len() {
                    seen.push(None);
                }
                if let Some(ix) = new {
                    let l = w.layer(ix).await?;
                    let ids = check_dictionary(&w.voc, &l, &w.layers[ix].m, "new layer")?;
                    seen[ix] = Some(ids);
                }
            }
            for fresh in [false, true] {
                if fresh {
                    w.reopen();
                }
                let n = w.layers.len();
                let mut all: Vec<Ids> = vec![];
                for ix in 0..n {
                    let l = w.layer(ix).await?;
                    let m = w.layers[ix].m.clone();
                    let ids = check_dictionary(&w.voc, &l, &m, if fresh { "layer loaded afresh" } else { "layer" })?;
                    if let Some(Some(old)) = seen.get(ix) {
                        if *old != ids {
                            return Err(crate::runner::Fail::new("dict:ids-changed", format!("ids of layer #{} changed over its history", ix)));
                        }
                    }
                    if let Some(p) = m.parent {
                        let pi = &all[p];
                        let moved = pi.nodes.iter().any(|(k, v)| ids.nodes.get(k) != Some(v))
                            || pi.preds.iter().any(|(k, v)| ids.preds.get(k) != Some(v))
                            || pi.values.iter().any(|(k, v)| ids.values.get(k) != Some(v));
                        if moved {
                            return Err(crate::runner::Fail::new("dict:ids-differ-in-child", format!("a term of layer #{} has another id in its child #{}", p, ix)));
                        }
                        if ids != *pi {
                            ctx.nontrivial = true;
                        }
                    }
                    if ix + 5 > n {
                        stored_dictionaries(&w, ix, &ids, m.parent.map(|p| &all[p])).await?;
                    }
                    ctx.count("terms-compared", (ids.nodes.len() + ids.preds.len() + ids.values.len()) as u64);
                    all.push(ids);
                }
            }
            Ok(())
        })
    }
}

/// What a layer store reports about the terms one layer introduces, by name, cached or not.
async fn stored_dictionaries(w: &World, ix: usize, ids: &Ids, parent: Option<&Ids>) -> R<()> {
    use terminus_store::storage::LayerStore;
    let name = w.layers[ix].name;
    let base = Ids::default();
    let pi = parent.unwrap_or(&base);
    let new = |a: &std::collections::BTreeMap<u32, u64>, b: &std::collections::BTreeMap<u32, u64>| -> std::collections::BTreeMap<u32, u64> {
        a.iter().filter(|(k, _)| !b.contains_key(k)).map(|(k, v)| (*k, *v)).collect()
    };
    let (nn, np, nv) = (new(&ids.nodes, &pi.nodes), new(&ids.preds, &pi.preds), new(&ids.values, &pi.values));
    let off = (pi.nodes.len() + pi.values.len()) as u64;
    let offp = pi.preds.len() as u64;
    let cold = w.base.cached();
    let warm = w.base.cached();
    let held = io("get_layer", warm.get_layer(name).await)?;
    let raw = w.base.raw();
    let stores: Vec<(&str, &dyn LayerStore)> = vec![("uncached", &*raw), ("cold cache", &cold), ("warm cache", &warm)];
    for (what, s) in stores {
        let bad = |m: String| crate::runner::Fail::new("dict:stored", format!("layer #{} through a store ({}): {}", ix, what, m));
        let counts = (
            io("get_node_count", s.get_node_count(name).await)?,
            io("get_predicate_count", s.get_predicate_count(name).await)?,
            io("get_value_count", s.get_value_count(name).await)?,
        );
        if counts != (Some(nn.len() as u64), Some(np.len() as u64), Some(nv.len() as u64)) {
            return Err(bad(format!("counts of new (nodes, predicates, values) are {:?}, expected {:?}", counts, (nn.len(), np.len(), nv.len()))));
        }
        let nd = io("get_node_dictionary", s.get_node_dictionary(name).await)?.ok_or_else(|| bad("no node dictionary".into()))?;
        let pd = io("get_predicate_dictionary", s.get_predicate_dictionary(name).await)?.ok_or_else(|| bad("no predicate dictionary".into()))?;
        let vd = io("get_value_dictionary", s.get_value_dictionary(name).await)?.ok_or_else(|| bad("no value dictionary".into()))?;
        let nm = io("get_node_value_idmap", s.get_node_value_idmap(name).await)?.ok_or_else(|| bad("no id map".into()))?;
        let pm = io("get_predicate_idmap", s.get_predicate_idmap(name).await)?.ok_or_else(|| bad("no id map".into()))?;
        if (nd.num_entries(), pd.num_entries(), vd.num_entries()) != (nn.len(), np.len(), nv.len()) {
            return Err(bad("dictionary sizes differ from the new terms".into()));
        }
        let step = |n: usize| (n / 100).max(1);
        for (k, id) in nn.iter().step_by(step(nn.len())) {
            let inner = nm.outer_to_inner(id - off);
            if nd.get(inner as usize) != Some(w.voc.node(*k)) {
                return Err(bad(format!("node {:?} is not at its place", w.voc.node(*k))));
            }
        }
        for (k, id) in np.iter().step_by(step(np.len())) {
            let inner = pm.outer_to_inner(id - offp);
            if pd.get(inner as usize) != Some(w.voc.pred(*k)) {
                return Err(bad(format!("predicate {:?} is not at its place", w.voc.pred(*k))));
            }
        }
        for (k, id) in nv.iter().step_by(step(nv.len())) {
            let inner = nm.outer_to_inner(id - off) as usize - nd.num_entries();
            if vd.entry(inner) != Some(w.voc.value(*k)) {
                return Err(bad(format!("value {:?} is not at its place", w.voc.value(*k))));
            }
        }
    }
    drop(held);
    Ok(())
}
