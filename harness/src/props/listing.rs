//! C18: enumeration of layers and labels, and lookups of layers that do not exist.
use crate::gen::*;
use crate::observe::*;
use crate::props::labels::label_name;
use crate::runner::*;
use crate::terms::Voc;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use terminus_store::layer::Layer;
use terminus_store::storage::LayerStore;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum EOp {
    Step(Step),
    Create(u8),
    Delete(u8),
    Head(u8, u32),
    /// look up: 0 the name of the n-th layer with one bit changed, 1 a random name, 2 zero, 3 all ones
    Lookup(u8, u32),
    List,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct ECase {
    pub voc: Voc,
    pub kind: u8,
    pub keep: bool,
    pub style: u8,
    pub ops: Vec<EOp>,
}

pub struct C18;

fn bad<Tv>(s: &str, m: String) -> R<Tv> {
    Err(Fail::new(format!("list:{}", s), m))
}

async fn list_layers(what: &str, s: &dyn LayerStore, w: &World) -> R<()> {
    let v = io(&format!("layers() of {}", what), s.layers().await)?;
    let set: BTreeSet<Name> = v.iter().cloned().collect();
    if set.len() != v.len() {
        return bad("twice", format!("{} lists a layer twice ({} names, {} distinct)", what, v.len(), set.len()));
    }
    let have: BTreeSet<Name> = w.layers.iter().map(|l| l.name).collect();
    if let Some(m) = have.difference(&set).next() {
        let ix = w.layers.iter().position(|l| &l.name == m).unwrap();
        return bad("missing", format!("{} does not list layer #{} ({}); {} listed, {} exist", what, ix, w.layers[ix].how, set.len(), have.len()));
    }
    let ab: BTreeSet<Name> = w.abandoned.iter().cloned().collect();
    let mut extra = 0;
    for x in set.difference(&have) {
        if ab.contains(x) {
            continue;
        }
        // layers which hold the data of a rollup are layers too
        extra += 1;
        if io("get_layer", s.get_layer(*x).await)?.is_none() {
            return bad("phantom", format!("{} lists {}, which cannot be retrieved", what, hexname(*x)));
        }
    }
    if extra > w.rollups {
        return bad("phantom", format!("{} lists {} unknown layers, after {} rollups", what, extra, w.rollups));
    }
    Ok(())
}

async fn list_labels(w: &World, labels: &BTreeMap<String, Option<usize>>) -> R<()> {
    for (what, s) in [("store", w.store.clone()), ("reopened store", w.base.open())] {
        let mut v = io("labels", s.labels().await)?;
        v.sort();
        let want: Vec<String> = labels.keys().cloned().collect();
        if v != want {
            return bad("labels", format!("{} lists labels {:?}, expected {:?}", what, v, want));
        }
    }
    Ok(())
}

/// A layer under construction may answer with an error, but may not appear as a layer.
async fn absent(w: &World, name: Name, what: &str, uncommitted: bool) -> R<()> {
    for (kind, s) in [("cached", std::sync::Arc::new(w.base.cached()) as std::sync::Arc<dyn LayerStore>), ("uncached", w.base.raw())] {
        match s.get_layer(name).await {
            Ok(None) => (),
            Ok(Some(l)) => return bad("ghost", format!("{} {} is found as a layer of {} triples ({} store)", what, hexname(name), l.triple_count(), kind)),
            Err(_) if uncommitted => (),
            Err(e) => return bad("lookup-error", format!("looking up {} {} fails: {:?} {} ({} store)", what, hexname(name), e.kind(), e, kind)),
        }
    }
    match w.store.get_layer_from_id(name).await {
        Ok(None) => Ok(()),
        Ok(Some(_)) => bad("ghost", format!("{} {} is found in the store", what, hexname(name))),
        Err(_) if uncommitted => Ok(()),
        Err(e) => bad("lookup-error", format!("looking up {} {} fails: {:?} {}", what, hexname(name), e.kind(), e)),
    }
}

impl Prop for C18 {
    type Case = ECase;
    const ID: &'static str = "C18";
    const RULE: &'static str = "distinct histories with at least four layers made in at least two ways, and at least one label";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 4000 } else { 40000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<ECase> {
        let small = crate::gen::Size { nn: 4, np: 2, nv: 3, items: 3, bulk: 0 };
        let w = Weights { commit: 8, abandon: 2, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 2, squash_upto: 2, merge: 2, reopen: 1, forget: 1, transfer: 1, adopt: 1 };
        let _ = t;
        let op = prop_oneof![
            8 => step(small, &w).prop_map(EOp::Step),
            2 => (0u8..5).prop_map(EOp::Create),
            1 => (0u8..5).prop_map(EOp::Delete),
            1 => (0u8..5, 0u32..5).prop_map(|(a, b)| EOp::Head(a, b)),
            2 => (0u8..5, any::<u32>()).prop_map(|(a, b)| EOp::Lookup(a, b)),
            1 => Just(EOp::List),
        ];
        (crate::gen::voc(small), 0u8..4, any::<bool>(), 0u8..7, prop::collection::vec(op, 1..24))
            .prop_map(|(voc, kind, keep, style, ops)| ECase { voc, kind, keep, style, ops })
            .boxed()
    }
    fn run(c: &ECase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
            w.track = c.ops.iter().any(|o| matches!(o, EOp::Step(Step::Adopt(_))));
            w.keep = c.keep;
            let mut labels: BTreeMap<String, Option<usize>> = BTreeMap::new();
            let mut ways: BTreeSet<&'static str> = BTreeSet::new();
            for op in &c.ops {
                match op {
                    EOp::Step(s) => {
                        w.apply(s, ctx).await?;
                        if let Step::Transfer(_) = s {
                            labels.clear();
                            w.abandoned.clear();
                            w.rollups = 0;
                        }
                    }
                    EOp::Create(n) => {
                        let name = label_name(c.style, *n);
                        if !labels.contains_key(&name) {
                            io("create", w.store.create(&name).await)?;
                            labels.insert(name, None);
                        }
                    }
                    EOp::Delete(n) => {
                        let name = label_name(c.style, *n);
                        let r = io("delete", w.store.delete(&name).await)?;
                        if r != labels.remove(&name).is_some() {
                            return bad("delete", format!("deleting {:?} gives {}", name, r));
                        }
                    }
                    EOp::Head(n, l) => {
                        let name = label_name(c.style, *n);
                        if let (true, Some(ix)) = (labels.contains_key(&name), w.pick(*l)) {
                            let g = io("open", w.store.open(&name).await)?.ok_or_else(|| Fail::new("list:open", "label is not found"))?;
                            let l = w.layer(ix).await?;
                            io("force_set_head", g.force_set_head(&l).await)?;
                            labels.insert(name, Some(ix));
                        }
                    }
                    EOp::Lookup(how, n) => {
                        let name = match (how % 5, w.pick(*n)) {
                            (0, Some(ix)) => {
                                let mut x = w.layers[ix].name;
                                x[*n as usize / 64 % 5] ^= 1 << (n % 32);
                                x
                            }
                            (1, Some(ix)) => {
                                // same prefix directory
                                let mut x = w.layers[ix].name;
                                x[4] = *n;
                                x
                            }
                            (2, _) => [0; 5],
                            (3, _) => [u32::MAX; 5],
                            (_, _) => [*n, n.rotate_left(7), !*n, 1, 2],
                        };
                        if !w.layers.iter().any(|l| l.name == name) && !w.abandoned.contains(&name) {
                            absent(&w, name, "a never created layer", false).await?;
                            ctx.label("lookup-of-absent-layer");
                        }
                    }
                    EOp::List => {
                        list_layers("a cached store", &w.base.cached(), &w).await?;
                        list_labels(&w, &labels).await?;
                    }
                }
            }
            for l in &w.layers {
                ways.insert(l.how);
            }
            for a in w.abandoned.clone() {
                absent(&w, a, "an uncommitted layer", true).await?;
                ctx.label("lookup-of-uncommitted-layer");
            }
            list_layers("the store", &w.base.cached(), &w).await?;
            list_layers("the uncached store", &*w.base.raw(), &w).await?;
            list_labels(&w, &labels).await?;
            // every listed layer is there with its contents
            let mut watch = Watch::new();
            w.reopen();
            watch.all(&mut w, "listed layer", ctx).await?;
            if w.layers.len() >= 4 && ways.len() >= 2 && !labels.is_empty() {
                ctx.nontrivial = true;
            }
            Ok(())
        })
    }
}
