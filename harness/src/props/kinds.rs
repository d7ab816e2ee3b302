//! C10: storage kinds against each other over reopening and several openers;
//! C21: the synchronous interface against the asynchronous one.
use super::labels::{ancestor_or_self, label_name};
use crate::gen::{self, Size, Weights, COMMITS_ONLY, MEDIUM, SMALL};
use crate::model::{Layer as ML, Set};
use crate::observe::*;
use crate::runner::*;
use crate::terms::Voc;
use crate::world::*;
use async_trait::async_trait;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Arc;
use terminus_store::layer::{IdTriple, Layer};
use terminus_store::storage::{CachedLayerStore, LockingHashMapLayerCache};
use terminus_store::store::sync::{SyncStore, SyncStoreLayer};
use terminus_store::store::Store;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum GOp {
    Create(u8),
    SetHead(u8, u32),
    Force(u8, u32),
    /// label, layer, offset from the current version
    ForceVersion(u8, u32, i8),
    Delete(u8),
    HandleDelete(u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Step(Step),
    Graph(GOp),
}

fn op(s: Size, w: &Weights) -> BoxedStrategy<Op> {
    let n = || prop_oneof![3 => 0u8..2, 1 => 0u8..5];
    let l = || prop_oneof![3 => 0u32..2, 1 => 0u32..12];
    prop_oneof![
        5 => gen::step(s, w).prop_map(Op::Step),
        4 => prop_oneof![
            2 => n().prop_map(GOp::Create),
            4 => (n(), l()).prop_map(|(a, b)| GOp::SetHead(a, b)),
            2 => (n(), l()).prop_map(|(a, b)| GOp::Force(a, b)),
            2 => (n(), l(), prop_oneof![3 => Just(0i8), 1 => -2i8..3]).prop_map(|(a, b, d)| GOp::ForceVersion(a, b, d)),
            1 => n().prop_map(GOp::Delete),
            1 => n().prop_map(GOp::HandleDelete),
        ]
        .prop_map(Op::Graph),
    ]
    .boxed()
}

fn ops(s: Size, w: &Weights, max: usize) -> BoxedStrategy<Vec<Op>> {
    (
        prop::collection::vec(gen::commit(s).prop_map(|c| Op::Step(Step::Commit(c))), 1..=max / 2),
        prop::collection::vec(prop_oneof![3 => 0u8..2, 1 => 0u8..5].prop_map(|n| Op::Graph(GOp::Create(n))), 0..4),
        prop::collection::vec(op(s, w), 1..=max),
    )
        .prop_map(|(mut a, b, c)| {
            a.extend(b);
            a.extend(c);
            a
        })
        .boxed()
}

type Labels = BTreeMap<String, (Option<usize>, u64)>;

/// What the operation should answer, and its effect on the model.
fn graph_model(g: &GOp, style: u8, w: &World, m: &mut Labels) -> String {
    let parents: Vec<Option<usize>> = w.layers.iter().map(|l| l.m.parent).collect();
    match g {
        GOp::Create(n) => {
            let n = label_name(style, *n);
            if m.contains_key(&n) {
                "refused".into()
            } else {
                m.insert(n, (None, 0));
                "created".into()
            }
        }
        GOp::SetHead(n, l) => match (m.get_mut(&label_name(style, *n)), w.pick(*l)) {
            (None, _) | (_, None) => "nothing".into(),
            (Some(v), Some(l)) => {
                let ok = v.0.map(|h| ancestor_or_self(&parents, l, h)).unwrap_or(true);
                if ok {
                    *v = (Some(l), v.1 + 1);
                }
                format!("{}", ok)
            }
        },
        GOp::Force(n, l) => match (m.get_mut(&label_name(style, *n)), w.pick(*l)) {
            (None, _) | (_, None) => "nothing".into(),
            (Some(v), Some(l)) => {
                *v = (Some(l), v.1 + 1);
                "forced".into()
            }
        },
        GOp::ForceVersion(n, l, d) => match (m.get_mut(&label_name(style, *n)), w.pick(*l)) {
            (None, _) | (_, None) => "nothing".into(),
            (Some(v), Some(l)) => {
                let ok = v.1.wrapping_add(*d as i64 as u64) == v.1;
                if ok {
                    *v = (Some(l), v.1 + 1);
                }
                format!("{}", ok)
            }
        },
        GOp::Delete(n) => format!("{}", m.remove(&label_name(style, *n)).is_some()),
        GOp::HandleDelete(n) => {
            if m.remove(&label_name(style, *n)).is_some() {
                "deleted".into()
            } else {
                "nothing".into()
            }
        }
    }
}

/// The version to ask for, given the model before the operation.
fn asked_version(g: &GOp, style: u8, m: &Labels) -> u64 {
    match g {
        GOp::ForceVersion(n, _, d) => m.get(&label_name(style, *n)).map(|v| v.1.wrapping_add(*d as i64 as u64)).unwrap_or(0),
        _ => 0,
    }
}

async fn graph_async(g: &GOp, style: u8, w: &mut World, version: u64) -> R<String> {
    let store = w.store.clone();
    match g {
        GOp::Create(n) => {
            let n = label_name(style, *n);
            match store.create(&n).await {
                Ok(g) if g.name() == n => Ok("created".into()),
                Ok(g) => Ok(format!("created {:?}", g.name())),
                Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => Ok("refused".into()),
                Err(e) => Ok(format!("error {:?}", e)),
            }
        }
        GOp::SetHead(n, l) | GOp::Force(n, l) | GOp::ForceVersion(n, l, _) => {
            let h = match (io("open", store.open(&label_name(style, *n)).await)?, w.pick(*l)) {
                (Some(h), Some(l)) => (h, w.layer(l).await?),
                _ => return Ok("nothing".into()),
            };
            match g {
                GOp::SetHead(..) => Ok(format!("{}", io("set_head", h.0.set_head(&h.1).await)?)),
                GOp::Force(..) => {
                    io("force_set_head", h.0.force_set_head(&h.1).await)?;
                    Ok("forced".into())
                }
                _ => Ok(format!("{}", io("force_set_head_version", h.0.force_set_head_version(&h.1, version).await)?)),
            }
        }
        GOp::Delete(n) => Ok(format!("{}", io("delete", store.delete(&label_name(style, *n)).await)?)),
        GOp::HandleDelete(n) => match io("open", store.open(&label_name(style, *n)).await)? {
            None => Ok("nothing".into()),
            Some(h) => {
                io("NamedGraph::delete", h.delete().await)?;
                Ok("deleted".into())
            }
        },
    }
}

fn graph_sync(g: &GOp, style: u8, w: &World, s: &SyncStore, version: u64) -> R<String> {
    let layer = |l: usize| -> R<SyncStoreLayer> {
        io("sync get_layer_from_id", s.get_layer_from_id(w.layers[l].name))?.ok_or_else(|| Fail::new("layer-missing", "sync: layer is not found"))
    };
    match g {
        GOp::Create(n) => {
            let n = label_name(style, *n);
            match s.create(&n) {
                Ok(g) if g.name() == n => Ok("created".into()),
                Ok(g) => Ok(format!("created {:?}", g.name())),
                Err(e) if e.kind() == std::io::ErrorKind::InvalidInput => Ok("refused".into()),
                Err(e) => Ok(format!("error {:?}", e)),
            }
        }
        GOp::SetHead(n, l) | GOp::Force(n, l) | GOp::ForceVersion(n, l, _) => {
            let h = match (io("sync open", s.open(&label_name(style, *n)))?, w.pick(*l)) {
                (Some(h), Some(l)) => (h, layer(l)?),
                _ => return Ok("nothing".into()),
            };
            match g {
                GOp::SetHead(..) => Ok(format!("{}", io("sync set_head", h.0.set_head(&h.1))?)),
                GOp::Force(..) => {
                    io("sync force_set_head", h.0.force_set_head(&h.1))?;
                    Ok("forced".into())
                }
                _ => Ok(format!("{}", io("sync force_set_head_version", h.0.force_set_head_version(&h.1, version))?)),
            }
        }
        GOp::Delete(n) => Ok(format!("{}", io("sync delete", s.delete(&label_name(style, *n)))?)),
        GOp::HandleDelete(n) => match io("sync open", s.open(&label_name(style, *n)))? {
            None => Ok("nothing".into()),
            Some(h) => {
                io("sync NamedGraph::delete", h.delete())?;
                Ok("deleted".into())
            }
        },
    }
}

fn wrong(what: &str, m: String) -> Fail {
    Fail::new(format!("{}:wrong", what), m)
}

async fn check_labels_async(store: &Store, style: u8, w: &World, m: &Labels, what: &str) -> R<()> {
    let mut names = io("labels", store.labels().await)?;
    names.sort();
    let want: Vec<String> = m.keys().cloned().collect();
    if names != want {
        return Err(wrong("labels", format!("{}: labels are {:?}, expected {:?}", what, names, want)));
    }
    for n in 0..5 {
        let name = label_name(style, n);
        let g = io("open", store.open(&name).await)?;
        if g.is_some() != m.contains_key(&name) {
            return Err(wrong("labels", format!("{}: label {:?} found: {}", what, name, g.is_some())));
        }
        if let Some(g) = g {
            let (h, v) = io("head_version", g.head_version().await)?;
            let got = (h.map(|h| h.name()), v);
            let (wh, wv) = m[&name];
            if got != (wh.map(|l| w.layers[l].name), wv) {
                return Err(wrong("head", format!("{}: head of {:?} is {:?}, expected layer #{:?} version {}", what, name, got, wh, wv)));
            }
            let h = io("head", g.head().await)?.map(|h| h.name());
            if h != got.0 {
                return Err(wrong("head", format!("{}: head() of {:?} is {:?}", what, name, h)));
            }
        }
    }
    Ok(())
}

fn check_labels_sync(s: &SyncStore, style: u8, w: &World, m: &Labels, what: &str) -> R<()> {
    let mut names = io("sync labels", s.labels())?;
    names.sort();
    let want: Vec<String> = m.keys().cloned().collect();
    if names != want {
        return Err(wrong("sync labels", format!("{}: labels are {:?}, expected {:?}", what, names, want)));
    }
    for n in 0..5 {
        let name = label_name(style, n);
        let g = io("sync open", s.open(&name))?;
        if g.is_some() != m.contains_key(&name) {
            return Err(wrong("sync labels", format!("{}: label {:?} found: {}", what, name, g.is_some())));
        }
        if let Some(g) = g {
            let (h, v) = io("sync head_version", g.head_version())?;
            let got = (h.map(|h| h.name()), v);
            let (wh, wv) = m[&name];
            if got != (wh.map(|l| w.layers[l].name), wv) || g.name() != name {
                return Err(wrong("sync head", format!("{}: head of {:?} is {:?}, expected layer #{:?} version {}", what, name, got, wh, wv)));
            }
            if io("sync head", g.head())?.map(|h| h.name()) != got.0 {
                return Err(wrong("sync head", format!("{}: head() of {:?} differs from head_version()", what, name)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct KCase {
    pub voc: Voc,
    pub style: u8,
    pub keep: bool,
    pub ops: Vec<Op>,
    /// per operation: bits 0..3 reopen that kind before it, bit 4 which opener performs it,
    /// bit 5 the other opener looks at everything afterwards
    pub plan: Vec<u8>,
}

/// Everything in a snapshot with names replaced by layer numbers.
fn normal(w: &World, s: &Snap) -> Snap {
    let ix = |n: Name| -> Name {
        let i = w.layers.iter().position(|l| l.name == n).map(|i| i as u32).unwrap_or(u32::MAX);
        [i, 0, 0, 0, 0]
    };
    let mut s = s.clone();
    s.name = ix(s.name);
    s.parent = s.parent.map(ix);
    s.stack = s.stack.into_iter().map(ix).collect();
    s
}

pub struct C10;
impl Prop for C10 {
    type Case = KCase;
    const ID: &'static str = "C10";
    const RULE: &'static str = "distinct histories of at least three layers with a successful label change, compared over four storage kinds, with at least one reopening";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 700 } else { 16000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<KCase> {
        let w = std::rc::Rc::new(Weights {
            commit: 10, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, forget: 1, abandon: 1, ..COMMITS_ONLY
        });
        let m = if t == Tier::Quick { 1 } else { 3 };
        prop_oneof![6 => Just(SMALL), m => Just(MEDIUM)]
            .prop_flat_map(move |s| {
                (
                    gen::voc(s),
                    0u8..6,
                    any::<bool>(),
                    ops(s, &w, 10),
                    prop::collection::vec(prop_oneof![3 => Just(0u8), 2 => 0u8..64, 1 => Just(0b11111)], 24),
                )
            })
            .prop_map(|(voc, style, keep, ops, plan)| KCase { voc, style, keep, ops, plan })
            .boxed()
    }
    fn run(c: &KCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut worlds = vec![];
            for k in 0..4u8 {
                let mut w = World::new(Kind::of(k), c.voc, ctx);
                w.keep = c.keep;
                let other = w.base.open();
                worlds.push((w, other, Watch::new()));
            }
            let kname = ["memory", "directory", "raw archive", "archive"];
            let mut labels = Labels::new();
            let (mut changed, mut reopened) = (false, false);
            for (i, op) in c.ops.iter().enumerate() {
                let plan = c.plan.get(i % c.plan.len().max(1)).cloned().unwrap_or(0);
                let what = format!("operation {} {:?}", i, op);
                let mut expect = None;
                let version = match op {
                    Op::Graph(g) => asked_version(g, c.style, &labels),
                    _ => 0,
                };
                for k in 0..4 {
                    let at = format!("{} on the {} store", what, kname[k]);
                    let (w, other, _) = &mut worlds[k];
                    if plan >> k & 1 == 1 {
                        w.reopen();
                        reopened = true;
                        ctx.label("op:reopen");
                    }
                    if plan >> 4 & 1 == 1 {
                        std::mem::swap(&mut w.store, other);
                        ctx.label("op:by-the-other-opener");
                    }
                    match op {
                        Op::Step(s) => {
                            w.apply(s, ctx).await.map_err(|f| f.ctx(&at))?;
                        }
                        Op::Graph(g) => {
                            let want = match &expect {
                                None => {
                                    let e = graph_model(g, c.style, w, &mut labels);
                                    if e == "true" || e == "forced" {
                                        changed = true;
                                    }
                                    expect = Some(e.clone());
                                    e
                                }
                                Some(e) => e.clone(),
                            };
                            let got = graph_async(g, c.style, w, version).await.map_err(|f| f.ctx(&at))?;
                            if got != want {
                                return Err(wrong("outcome", format!("{}: {}, expected {}", at, got, want)));
                            }
                        }
                    }
                }
                let n = worlds[0].0.layers.len();
                for k in 0..4 {
                    let at = format!("after {} on the {} store", what, kname[k]);
                    let (w, other, watch) = &mut worlds[k];
                    if w.layers.len() != n {
                        return Err(Fail::new("layers:count", format!("{}: {} layers, {} on the memory store", at, w.layers.len(), n)));
                    }
                    check_labels_async(&w.store, c.style, w, &labels, &at).await?;
                    check_labels_async(other, c.style, w, &labels, &format!("{} (other opener)", at)).await?;
                    if plan >> 5 & 1 == 1 || plan >> k & 1 == 1 {
                        let keep = w.keep;
                        w.keep = false;
                        let held: Vec<_> = w.layers.iter_mut().map(|l| l.handle.take()).collect();
                        std::mem::swap(&mut w.store, other);
                        let r = watch.all(w, &at, ctx).await;
                        std::mem::swap(&mut w.store, other);
                        for (l, h) in w.layers.iter_mut().zip(held) {
                            l.handle = h;
                        }
                        w.keep = keep;
                        r?;
                    }
                }
            }
            // everything once more: through what is open, and opened again
            for fresh in [false, true] {
                for (k, (w, other, watch)) in worlds.iter_mut().enumerate() {
                    let at = format!("{} store at the end{}", kname[k], if fresh { ", opened again" } else { "" });
                    if fresh {
                        w.reopen();
                        *other = w.base.open();
                    }
                    watch.all(w, &at, ctx).await?;
                    check_labels_async(&w.store, c.style, w, &labels, &at).await?;
                    for ix in 0..w.layers.len() {
                        let l = w.layer(ix).await?;
                        if fresh || ix % 3 == 0 {
                            check_everything(w, &l, ix, &at, 20).await?;
                        }
                    }
                }
            }
            let n = worlds[0].0.layers.len();
            for ix in 0..n {
                let first = normal(&worlds[0].0, worlds[0].2.snaps[ix].as_ref().unwrap());
                for k in 1..4 {
                    let s = normal(&worlds[k].0, worlds[k].2.snaps[ix].as_ref().unwrap());
                    compare_snaps(&first, &s, &format!("layer #{} from the memory to the {} store", ix, kname[k])).map_err(|mut f| {
                        f.sig = f.sig.replace("changed:", "differs:");
                        f
                    })?;
                    ctx.count("layers-compared-across-kinds", 1);
                }
            }
            ctx.nontrivial = n >= 3 && changed && reopened;
            Ok(())
        })
    }
}

// ---------------------------------------------------------------------------------------------

#[async_trait]
impl Changes for SyncStoreLayer {
    async fn exists(&self, add: bool, t: IdTriple) -> std::io::Result<bool> {
        if add {
            self.triple_addition_exists(t.subject, t.predicate, t.object)
        } else {
            self.triple_removal_exists(t.subject, t.predicate, t.object)
        }
    }
    async fn all(&self, add: bool, lim: usize) -> std::io::Result<Vec<IdTriple>> {
        Ok(if add { self.triple_additions()? } else { self.triple_removals()? }.take(lim).collect())
    }
    async fn s(&self, add: bool, s: u64, lim: usize) -> std::io::Result<Vec<IdTriple>> {
        Ok(if add { self.triple_additions_s(s)? } else { self.triple_removals_s(s)? }.take(lim).collect())
    }
    async fn sp(&self, add: bool, s: u64, p: u64, lim: usize) -> std::io::Result<Vec<IdTriple>> {
        Ok(if add { self.triple_additions_sp(s, p)? } else { self.triple_removals_sp(s, p)? }.take(lim).collect())
    }
    async fn p(&self, add: bool, p: u64, lim: usize) -> std::io::Result<Vec<IdTriple>> {
        Ok(if add { self.triple_additions_p(p)? } else { self.triple_removals_p(p)? }.take(lim).collect())
    }
    async fn o(&self, add: bool, o: u64, lim: usize) -> std::io::Result<Vec<IdTriple>> {
        Ok(if add { self.triple_additions_o(o)? } else { self.triple_removals_o(o)? }.take(lim).collect())
    }
    async fn count(&self, add: bool) -> std::io::Result<usize> {
        if add {
            self.triple_layer_addition_count()
        } else {
            self.triple_layer_removal_count()
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SCase {
    pub voc: Voc,
    pub kind: u8,
    pub style: u8,
    pub ops: Vec<Op>,
    /// per operation: bit 0 perform it through the synchronous interface; bit 1 and 2: variants of doing so
    pub plan: Vec<u8>,
    /// a synchronous store opened on its own instead of one that wraps the asynchronous one
    pub own: bool,
}

pub struct C21;

impl C21 {
    fn sync_of(w: &World, own: bool) -> SyncStore {
        match (&w.base, own) {
            (Base::Disk(k, p), true) => match k {
                Kind::Dir => terminus_store::open_sync_directory_store(p),
                Kind::RawArchive => terminus_store::store::sync::open_sync_raw_archive_store(p),
                Kind::Archive(mb) => terminus_store::open_sync_archive_store(p, *mb as usize),
                Kind::Mem => unreachable!(),
            },
            (Base::Mem(l, b), true) => SyncStore::wrap(Store::new(b.clone(), CachedLayerStore::new(l.clone(), LockingHashMapLayerCache::new()))),
            _ => SyncStore::wrap(w.store.clone()),
        }
    }

    fn get(s: &SyncStore, n: Name) -> R<SyncStoreLayer> {
        io("sync get_layer_from_id", s.get_layer_from_id(n))?.ok_or_else(|| Fail::new("layer-missing", "sync: committed layer is not found"))
    }

    fn push(w: &mut World, rt: &tokio::runtime::Runtime, m: ML, name: Name, how: &'static str) -> R<()> {
        let l = rt.block_on(w.store.get_layer_from_id(name));
        let l = io("get_layer_from_id", l)?.ok_or_else(|| Fail::new("layer-missing", format!("layer made by sync {} is not found", how)))?;
        w.push(m, l, how);
        Ok(())
    }

    /// Does the same kind of rollup through both interfaces, in two copies of the store, and
    /// compares what is made: the layers that the new ones sit on.
    fn rollup_apart(w: &World, st: &Step, ix: usize, up: usize, ctx: &mut Ctx) -> R<()> {
        let (kind, from) = match &w.base {
            Base::Disk(k, p) => (*k, p.clone()),
            _ => return Ok(()),
        };
        let rt = ctx.rt.clone();
        let mut made = vec![];
        for sync in [false, true] {
            let dir = ctx.new_dir();
            crate::fsim::copy_tree(&from, &dir);
            let base = Base::Disk(kind, dir.clone());
            let before = io("layers", rt.block_on(base.raw().layers()))?;
            let (n, u) = (w.layers[ix].name, w.layers[up].name);
            let r = if sync {
                let s = match kind {
                    Kind::Dir => terminus_store::open_sync_directory_store(&dir),
                    Kind::RawArchive => terminus_store::store::sync::open_sync_raw_archive_store(&dir),
                    Kind::Archive(mb) => terminus_store::open_sync_archive_store(&dir, mb as usize),
                    Kind::Mem => unreachable!(),
                };
                let (l, ul) = (Self::get(&s, n)?, Self::get(&s, u)?);
                match st {
                    Step::Rollup(_) => l.rollup(),
                    Step::RollupUpto(..) => l.rollup_upto(&ul),
                    _ => l.imprecise_rollup_upto(&ul),
                }
            } else {
                rt.block_on(async {
                    let s = base.open();
                    let l = io("get_layer_from_id", s.get_layer_from_id(n).await)?.ok_or_else(|| Fail::new("layer-missing", "layer is not found in a copy"))?;
                    let ul = io("get_layer_from_id", s.get_layer_from_id(u).await)?.ok_or_else(|| Fail::new("layer-missing", "layer is not found in a copy"))?;
                    R::Ok(match st {
                        Step::Rollup(_) => l.rollup().await,
                        Step::RollupUpto(..) => l.rollup_upto(&ul).await,
                        _ => l.imprecise_rollup_upto(&ul).await,
                    })
                })?
            };
            let raw = base.raw();
            let mut parents = vec![];
            for name in io("layers", rt.block_on(raw.layers()))? {
                if !before.contains(&name) {
                    parents.push(io("get_layer_parent_name", rt.block_on(raw.get_layer_parent_name(name)))?);
                }
            }
            parents.sort();
            made.push((r.map_err(|e| e.kind()), parents));
            let _ = std::fs::remove_dir_all(&dir);
        }
        if made[0] != made[1] {
            return Err(wrong("sync rollup", format!("{:?} makes layers on {:?} through the asynchronous interface, on {:?} through the synchronous one", st, made[0], made[1])));
        }
        ctx.count("rollups compared in copies", 1);
        Ok(())
    }

    /// Performs a step through the synchronous interface, with its effect on the model.
    fn step(s: &SyncStore, st: &Step, w: &mut World, bits: u8, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let full = w.layers.len() >= w.max_layers;
        match st {
            Step::Commit(c) | Step::Abandon(c) => {
                if full {
                    return Ok(());
                }
                let pix = c.parent.and_then(|n| w.pick(n));
                let b = match pix {
                    None => io("sync create_base_layer", s.create_base_layer())?,
                    Some(p) => io("sync open_write", Self::get(s, w.layers[p].name)?.open_write())?,
                };
                if let (Some(p), 1) = (pix, bits & 1) {
                    // take over the changes of the parent, or the difference to some layer
                    let other = w.pick(c.items.len() as u32 * 7 + 3).unwrap();
                    let o = Self::get(s, w.layers[other].name)?;
                    let (adds, rems): (Set, Set) = if bits & 2 == 0 {
                        io("sync apply_delta", b.apply_delta(&o))?;
                        ctx.label("sync-op:apply_delta");
                        let m = &w.layers[other].m;
                        if m.parent.is_none() { (m.set.as_ref().clone(), Set::new()) } else { (m.adds.as_ref().clone(), m.rems.as_ref().clone()) }
                    } else {
                        io("sync apply_diff", b.apply_diff(&o))?;
                        ctx.label("sync-op:apply_diff");
                        let (x, y) = (&w.layers[other].m.set, &w.layers[p].m.set);
                        (x.difference(y).cloned().collect(), y.difference(x).cloned().collect())
                    };
                    let name = b.name();
                    io("sync commit_no_load", b.commit_no_load())?;
                    let m = ML::commit(pix, Some(&w.layers[p].m), &adds, &rems);
                    return Self::push(w, &rt, m, name, "delta");
                }
                let mut adds = Set::new();
                let mut rems = Set::new();
                let existing: Vec<_> = pix.map(|p| w.layers[p].m.set.iter().cloned().collect()).unwrap_or_default();
                for (i, it) in World::all_items(c).into_iter().enumerate() {
                    use crate::model::B;
                    let (k, add, byid) = match it {
                        B::Add(t, i) => (w.voc.norm(t), true, i),
                        B::Rem(t, i) => (w.voc.norm(t), false, i),
                        B::AddEx(n, i) | B::RemEx(n, i) => {
                            if existing.is_empty() {
                                continue;
                            }
                            (existing[n as usize % existing.len()], matches!(it, B::AddEx(..)), i)
                        }
                    };
                    let id = match pix {
                        Some(p) if byid && w.layers[p].m.dict.knows(&k) => Self::get(s, w.layers[p].name)?.value_triple_to_id(&w.voc.triple(k)),
                        _ => None,
                    };
                    let t = w.voc.triple(k);
                    let r = match (add, id) {
                        (true, Some(id)) => b.add_id_triple(id),
                        (false, Some(id)) => b.remove_id_triple(id),
                        (true, None) if i % 5 == 4 => b.with_builder(|b| b.add_value_triple(t)),
                        (true, None) => b.add_value_triple(t),
                        (false, None) => b.remove_value_triple(t),
                    };
                    io("sync builder call", r)?;
                    if add {
                        adds.insert(k);
                    } else {
                        rems.insert(k);
                    }
                }
                if b.committed() {
                    return Err(wrong("sync committed", "committed() before commit".into()));
                }
                if matches!(st, Step::Abandon(_)) {
                    return Ok(());
                }
                let name = b.name();
                let l = io("sync commit", b.commit())?;
                if !b.committed() || l.name() != name {
                    return Err(wrong("sync committed", format!("after commit: committed {}, layer named as the builder: {}", b.committed(), l.name() == name)));
                }
                if b.commit().is_ok() || b.commit_no_load().is_ok() {
                    return Err(wrong("sync commit", "a second commit succeeded".into()));
                }
                let m = ML::commit(pix, pix.map(|p| &w.layers[p].m), &adds, &rems);
                Self::push(w, &rt, m, name, "sync commit")
            }
            Step::Rollup(n) => {
                if let Some(ix) = w.pick(*n) {
                    let before = rt.block_on(w.listed())?;
                    Self::rollup_apart(w, st, ix, ix, ctx)?;
                    io("sync rollup", Self::get(s, w.layers[ix].name)?.rollup())?;
                    rt.block_on(w.find_made(before, ix, Some(None)))?;
                }
                Ok(())
            }
            Step::RollupUpto(n, u) | Step::ImpreciseUpto(n, u) => {
                if let Some(ix) = w.pick(*n) {
                    let up = w.up(ix, *u);
                    let before = rt.block_on(w.listed())?;
                    Self::rollup_apart(w, st, ix, up, ctx)?;
                    let (l, ul) = (Self::get(s, w.layers[ix].name)?, Self::get(s, w.layers[up].name)?);
                    let parent = if matches!(st, Step::RollupUpto(..)) {
                        io("sync rollup_upto", l.rollup_upto(&ul))?;
                        Some(Some(up))
                    } else {
                        io("sync imprecise_rollup_upto", l.imprecise_rollup_upto(&ul))?;
                        None
                    };
                    rt.block_on(w.find_made(before, ix, parent))?;
                }
                Ok(())
            }
            Step::Squash(n) => {
                if let (Some(ix), false) = (w.pick(*n), full) {
                    let q = io("sync squash", Self::get(s, w.layers[ix].name)?.squash())?;
                    let m = World::squashed(&w.layers[ix].m);
                    Self::push(w, &rt, m, q.name(), "sync squash")?;
                }
                Ok(())
            }
            Step::SquashUpto(n, u) => {
                if let (Some(ix), false) = (w.pick(*n), full) {
                    let up = w.up(ix, *u);
                    if up == ix {
                        return Ok(());
                    }
                    let q = io("sync squash_upto", Self::get(s, w.layers[ix].name)?.squash_upto(&Self::get(s, w.layers[up].name)?))?;
                    let (a, b) = (&w.layers[ix].m.set, &w.layers[up].m.set);
                    let m = ML::commit(Some(up), Some(&w.layers[up].m), &diff_set(a, b), &diff_set(b, a));
                    Self::push(w, &rt, m, q.name(), "sync squash_upto")?;
                }
                Ok(())
            }
            Step::Merge(v) => {
                let bases: Vec<usize> = v.iter().filter_map(|n| w.pick(*n)).filter(|ix| w.layers[*ix].m.parent.is_none()).collect();
                if full || bases.is_empty() {
                    return Ok(());
                }
                let names: Vec<Name> = bases.iter().map(|ix| w.layers[*ix].name).collect();
                let tmp = ctx.new_dir();
                let name = io("sync merge_base_layers", s.merge_base_layers(&names, &tmp))?;
                let mut set = Set::new();
                for ix in bases {
                    set.extend(w.layers[ix].m.set.iter().cloned());
                }
                let m = ML {
                    parent: None,
                    adds: Arc::new(set.clone()),
                    rems: Default::default(),
                    dict: Arc::new(crate::model::Dict::of(&set)),
                    set: Arc::new(set),
                    depth: 1,
                };
                Self::push(w, &rt, m, name, "sync merge")
            }
            Step::Transfer(k) => {
                let names: Vec<Name> = w.layers.iter().map(|l| l.name).collect();
                let pack = io("sync export_layers", s.export_layers(Box::new(names.clone().into_iter())))?;
                let base = Base::new(Kind::of(*k), ctx);
                let store = base.open();
                io("sync import_layers", SyncStore::wrap(store.clone()).import_layers(&pack, Box::new(names.into_iter())))?;
                // looked at through the asynchronous interface; the history goes on in the old store
                for ix in 0..w.layers.len() {
                    let l = rt.block_on(store.get_layer_from_id(w.layers[ix].name));
                    let l = io("get_layer_from_id", l)?.ok_or_else(|| Fail::new("layer-missing", "layer imported through the sync interface is not found"))?;
                    check_contents(&w.voc, &l, &w.layers[ix].m, "imported through the sync interface")?;
                }
                ctx.label("sync-op:transfer");
                Ok(())
            }
            Step::Reopen | Step::Forget(_) | Step::Adopt(_) => Ok(()),
        }
    }

    /// Every answer of the synchronous layer against the model and the asynchronous layer.
    fn compare(s: &SyncStore, w: &mut World, ix: usize, what: &str, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let al = rt.block_on(w.layer(ix))?;
        let sl = Self::get(s, w.layers[ix].name)?;
        let m = w.layers[ix].m.clone();
        let at = format!("{}, sync layer #{}", what, ix);
        let ids_s = check_dictionary(&w.voc, &sl, &m, &at)?;
        let ids_a = check_dictionary(&w.voc, &al, &m, &at)?;
        if ids_s != ids_a {
            return Err(wrong("sync ids", format!("{}: ids differ from those of the asynchronous layer", at)));
        }
        check_contents(&w.voc, &sl, &m, &at)?;
        let want = expect_ids(&w.voc, &al, &m.set)?;
        check_patterns(&sl, &want, &at, 25)?;
        let (a, r) = (expect_ids(&w.voc, &al, &m.adds)?, expect_ids(&w.voc, &al, &m.rems)?);
        let (nn, np) = ((m.dict.nodes.len() + m.dict.values.len()) as u64, m.dict.preds.len() as u64);
        futures::executor::block_on(check_changes(&sl, &a, &r, nn, np, &at, 8))?;
        let stack = io("sync retrieve_layer_stack_names", sl.retrieve_layer_stack_names())?;
        let path: Vec<Name> = w.path(ix).iter().map(|i| w.layers[*i].name).collect();
        if stack != path {
            return Err(wrong("sync stack", format!("{}: stack of {} names, expected {}", at, stack.len(), path.len())));
        }
        let parent = io("sync parent", sl.parent())?;
        let wantp = m.parent.map(|p| w.layers[p].name);
        if parent.as_ref().map(|p| p.name()) != wantp || sl.parent_name() != wantp || sl.name() != w.layers[ix].name {
            return Err(wrong("sync lineage", format!("{}: name or parent is wrong", at)));
        }
        if sl.node_and_value_count() != al.node_and_value_count() || sl.predicate_count() != al.predicate_count() {
            return Err(wrong("sync counts", format!("{}: dictionary counts differ from those of the asynchronous layer", at)));
        }
        if sl != sl.clone() {
            return Err(wrong("sync eq", format!("{}: the layer does not equal itself", at)));
        }
        if ix > 0 && sl == Self::get(s, w.layers[ix - 1].name)? {
            return Err(wrong("sync eq", format!("{}: the layer equals another one", at)));
        }
        ctx.count("sync-layers-compared", 1);
        Ok(())
    }
}

impl Prop for C21 {
    type Case = SCase;
    const ID: &'static str = "C21";
    const RULE: &'static str = "distinct histories with at least two operations performed through the synchronous interface, one of them making a child layer or changing a label";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 3000 } else { 40000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<SCase> {
        let w = std::rc::Rc::new(Weights {
            commit: 10, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 2, merge: 2, abandon: 1, transfer: 1, ..COMMITS_ONLY
        });
        let m = if t == Tier::Quick { 1 } else { 3 };
        prop_oneof![6 => Just(SMALL), m => Just(MEDIUM)]
            .prop_flat_map(move |s| (gen::voc(s), prop_oneof![2 => Just(0u8), 1 => 1u8..4], 0u8..6, ops(s, &w, 9), prop::collection::vec(0u8..16, 20), any::<bool>()))
            .prop_map(|(voc, kind, style, ops, plan, own)| SCase { voc, kind, style, ops, plan, own })
            .boxed()
    }
    fn run(c: &SCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let mut w = World::new(Kind::of(c.kind), c.voc, ctx);
        w.track = true;
        let s = Self::sync_of(&w, c.own);
        let mut labels = Labels::new();
        let (mut done, mut weighty) = (0, false);
        for (i, op) in c.ops.iter().enumerate() {
            let plan = c.plan.get(i % c.plan.len().max(1)).cloned().unwrap_or(1);
            let what = format!("operation {} {:?}", i, op);
            let sync = plan & 3 != 0;
            if sync {
                done += 1;
                ctx.label("sync-operation");
            }
            match op {
                Op::Step(st) => {
                    let before = w.layers.len();
                    if sync {
                        Self::step(&s, st, &mut w, plan >> 2, ctx).map_err(|f| f.ctx(&what))?;
                        weighty |= w.layers.len() > before && w.layers.last().unwrap().m.parent.is_some();
                    } else if !matches!(st, Step::Transfer(_)) {
                        rt.block_on(w.apply(st, ctx)).map_err(|f| f.ctx(&what))?;
                    }
                    for ix in before..w.layers.len() {
                        Self::compare(&s, &mut w, ix, &what, ctx)?;
                    }
                }
                Op::Graph(g) => {
                    let version = asked_version(g, c.style, &labels);
                    let want = graph_model(g, c.style, &w, &mut labels);
                    let got = if sync {
                        graph_sync(g, c.style, &w, &s, version)
                    } else {
                        rt.block_on(graph_async(g, c.style, &mut w, version))
                    }
                    .map_err(|f| f.ctx(&what))?;
                    if got != want {
                        return Err(wrong("outcome", format!("{} (sync: {}): {}, expected {}", what, sync, got, want)));
                    }
                    weighty |= sync && (want == "true" || want == "forced");
                    check_labels_sync(&s, c.style, &w, &labels, &what)?;
                    rt.block_on(check_labels_async(&w.store, c.style, &w, &labels, &what))?;
                }
            }
        }
        for ix in 0..w.layers.len() {
            Self::compare(&s, &mut w, ix, "end", ctx)?;
        }
        if !w.layers.is_empty() {
            let r = s.get_layer_from_id([1, 2, 3, 4, 5]);
            if io("sync get_layer_from_id", r)?.is_some() {
                return Err(wrong("sync get", "a layer that was never made is found".into()));
            }
        }
        ctx.nontrivial = done >= 2 && weighty;
        Ok(())
    }
}
