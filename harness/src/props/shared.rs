//! C16: concurrent use of one store equals some sequential use.
use crate::conc;
use crate::gen;
use crate::model::{Layer as ML, Set, B, K};
use crate::observe::check_changes;
use crate::props::races::schedule;
use crate::runner::*;
use crate::slow::{Slow, SlowWhole};
use crate::terms::Voc;
use crate::world::*;
use futures::FutureExt;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::io;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use terminus_store::layer::Layer;
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend};
use terminus_store::storage::directory::{DirectoryLabelStore, DirectoryLayerStore};
use terminus_store::storage::memory::MemoryLayerStore;
use terminus_store::storage::{CachedLayerStore, FileLoad, FileStore, LayerStore, LockingHashMapLayerCache, PersistentLayerStore, SyncableFile};
use terminus_store::store::{Store, StoreLayer, StoreLayerBuilder};
use tokio::io::AsyncWriteExt;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum SOp {
    /// load an existing layer and look at it
    Load(u32),
    /// look at a layer that was loaded before
    Query(u32),
    /// a builder of one's own, from start to commit
    Build(Option<u32>, Vec<B>, bool),
    /// calls on a shared builder
    Items(u8, Vec<B>),
    /// apply the changes of an existing layer to a shared builder
    Delta(u8, u32),
    /// commit a shared builder
    Commit(u8, bool),
    Committed(u8),
    /// load a layer that is being built, or was built by somebody else
    LoadNew(u8),
    /// list the layers, and load those that are new
    Listed,
    Rollup(u32),
    Upto(u32, u32),
    Imprecise(u32, u32),
    Squash(u32),
    SquashUpto(u32, u32),
    Merge(Vec<u32>),
    /// import layers of the prepared pack: as the bits say
    Import(u8),
    Export(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// directory-backed stores, interleaved at system calls; whether each client opens the path itself
    Calls { kind: u8, shared: bool },
    /// tasks over one store, interleaved at accesses
    Tasks { kind: u8 },
    /// real threads
    Threads { kind: u8, rounds: u8 },
    /// layers are loaded while they are made
    Making {
        shared: bool,
        #[serde(default)]
        kind: u8,
    },
    /// real threads asking for the files of new layers
    Files { kind: u8, rounds: u16 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SCase {
    pub voc: Voc,
    pub mode: Mode,
    pub before: Vec<Step>,
    /// layers that stay loaded
    pub keep: bool,
    /// parents of the shared builders
    pub builders: Vec<Option<u32>>,
    pub pack: Vec<Step>,
    pub clients: Vec<Vec<SOp>>,
    pub schedule: Vec<(u8, u8)>,
}

/// A layer that comes into being.
struct New {
    name: Name,
    done: bool,
    m: Option<ML>,
    how: &'static str,
}

struct SB {
    b: StoreLayerBuilder,
    parent: Option<usize>,
    pl: Option<StoreLayer>,
    new: usize,
    adds: Mutex<Set>,
    rems: Mutex<Set>,
    /// a call was refused, or may have taken effect in part
    vague: AtomicBool,
    commits: AtomicUsize,
    refused: AtomicUsize,
    begun: AtomicBool,
    over: AtomicBool,
}

struct Shared {
    voc: Voc,
    old: Vec<(ML, Name)>,
    handles: Vec<Option<StoreLayer>>,
    builders: Vec<SB>,
    new: Mutex<Vec<New>>,
    /// what was loaded of new layers
    seen: Mutex<Vec<(usize, StoreLayer, String)>>,
    pack: Vec<u8>,
    packed: Vec<usize>,
    tmp: PathBuf,
    /// directory and memory stores show layers in the making (see known_findings.txt)
    shows: bool,
    making: bool,
    /// every layer without a name is a rollup or squash of an old layer
    unnamed_old: bool,
    half: Mutex<Vec<String>>,
    failed: Mutex<Option<Fail>>,
    busy: AtomicUsize,
    overlapped: AtomicBool,
    did: Mutex<BTreeSet<&'static str>>,
}

/// Content, dictionary resolution and changes of a layer.
async fn look(voc: &Voc, l: &StoreLayer, m: &ML, what: &str) -> R<()> {
    check_contents(voc, l, m, what)?;
    check_existence(voc, l, m, what, 40)?;
    changes(voc, l, m, what).await
}

async fn changes(voc: &Voc, l: &StoreLayer, m: &ML, what: &str) -> R<()> {
    let a = expect_ids(voc, l, &m.adds)?;
    let r = expect_ids(voc, l, &m.rems)?;
    check_changes(l, &a, &r, (m.dict.nodes.len() + m.dict.values.len()) as u64, m.dict.preds.len() as u64, what, 2).await
}

impl Shared {
    fn fail(&self, f: Fail) {
        let mut g = self.failed.lock().unwrap();
        if g.is_none() {
            *g = Some(f);
        }
    }
    fn announce(&self, name: Name, how: &'static str) -> usize {
        let mut g = self.new.lock().unwrap();
        g.push(New { name, done: false, m: None, how });
        g.len() - 1
    }
    fn done(&self, i: usize, m: Option<ML>) {
        let mut g = self.new.lock().unwrap();
        g[i].done = true;
        if m.is_some() {
            g[i].m = m;
        }
    }
    fn new_done(&self, name: Name, m: ML, how: &'static str) -> usize {
        let i = self.announce(name, how);
        self.done(i, Some(m));
        i
    }
    fn saw(&self, i: usize, l: StoreLayer, what: String) {
        self.seen.lock().unwrap().push((i, l, what));
    }
    fn up(&self, l: usize, up: u32) -> usize {
        let mut p = vec![l];
        while let Some(x) = self.old[*p.last().unwrap()].0.parent {
            p.push(x);
        }
        p[up as usize % p.len()]
    }
}

struct Client {
    id: usize,
    store: Store,
    layers: Arc<dyn LayerStore>,
    s: Arc<Shared>,
    mt: bool,
}

fn pick(n: u32, len: usize) -> usize {
    len - 1 - n as usize % len
}

impl Client {
    async fn run(&self, op: &SOp) {
        if self.s.busy.fetch_add(1, Ordering::SeqCst) > 0 {
            self.s.overlapped.store(true, Ordering::SeqCst);
        }
        let r = self.run2(op).await;
        self.s.busy.fetch_sub(1, Ordering::SeqCst);
        if let Err(f) = r {
            self.s.fail(f.ctx(format!("client {}: {:?}", self.id, op)));
        }
    }
    async fn old(&self, i: usize) -> R<StoreLayer> {
        match io("get_layer_from_id", self.store.get_layer_from_id(self.s.old[i].1).await)? {
            Some(l) => Ok(l),
            None => Err(Fail::new("layer:missing", format!("layer {} is not found", i))),
        }
    }
    async fn items<F: FnMut(bool, K, io::Result<()>) -> R<bool>>(&self, b: &StoreLayerBuilder, parent: Option<(&ML, &StoreLayer)>, items: &[B], pause: bool, mut f: F) -> R<()> {
        let voc = &self.s.voc;
        let existing: Vec<K> = parent.map(|(p, _)| p.set.iter().cloned().collect()).unwrap_or_default();
        for item in items {
            let (k, add, byid) = match *item {
                B::Add(t, i) => (voc.norm(t), true, i),
                B::Rem(t, i) => (voc.norm(t), false, i),
                B::AddEx(n, i) | B::RemEx(n, i) => {
                    if existing.is_empty() {
                        continue;
                    }
                    (existing[n as usize % existing.len()], matches!(item, B::AddEx(..)), i)
                }
            };
            let id = match parent {
                Some((pm, pl)) if byid && pm.dict.knows(&k) => match pl.value_triple_to_id(&voc.triple(k)) {
                    None => return Err(Fail::new("term-unknown", format!("parent does not resolve the known terms of {:?}", voc.triple(k)))),
                    id => id,
                },
                _ => None,
            };
            let r = match (add, id) {
                (true, None) => b.add_value_triple(voc.triple(k)),
                (false, None) => b.remove_value_triple(voc.triple(k)),
                (true, Some(id)) => b.add_id_triple(id),
                (false, Some(id)) => b.remove_id_triple(id),
            };
            if !f(add, k, r)? {
                break;
            }
            if pause {
                conc::pause().await;
            }
        }
        Ok(())
    }
    /// A layer that was made for a rollup, a squash or a merge.
    fn unnamed(&self, l: &StoreLayer, name: Name) -> R<()> {
        let s = &*self.s;
        let ts = bounded("listed layer", l.triples(), 100000)?;
        let mut set = BTreeSet::new();
        for t in ts.iter() {
            match l.id_triple_to_string(t) {
                Some(v) => set.insert(v),
                None => return Err(Fail::new("contents:unresolvable", format!("listed layer {}: triple {:?} does not resolve", hexname(name), t))),
            };
        }
        if s.unnamed_old && !s.old.iter().any(|(m, _)| m.set.len() == set.len() && m.set.iter().all(|k| set.contains(&s.voc.triple(*k)))) {
            return Err(Fail::new("contents:wrong", format!("listed layer {}, made from an existing layer, has other contents: {} triples", hexname(name), set.len())));
        }
        Ok(())
    }
    async fn run2(&self, op: &SOp) -> R<()> {
        let s = &*self.s;
        let n = s.old.len();
        let did = |w: &'static str| {
            s.did.lock().unwrap().insert(w);
        };
        match op {
            SOp::Load(x) => {
                let i = pick(*x, n);
                let l = self.old(i).await?;
                look(&s.voc, &l, &s.old[i].0, &format!("layer {}, loaded", i)).await?;
                if let Some(p) = s.old[i].0.parent {
                    let pl = io("parent", l.parent().await)?;
                    if pl.map(|l| l.name()) != Some(s.old[p].1) {
                        return Err(Fail::new("layer:parent", format!("wrong parent of layer {}", i)));
                    }
                }
                did("load");
            }
            SOp::Query(x) => {
                let i = pick(*x, n);
                if let Some(l) = &s.handles[i] {
                    look(&s.voc, l, &s.old[i].0, &format!("layer {}, loaded before", i)).await?;
                    did("query");
                }
            }
            SOp::Build(p, items, load) => {
                let p = p.map(|p| pick(p, n));
                let (b, pl) = match p {
                    None => (io("create_base_layer", self.store.create_base_layer().await)?, None),
                    Some(p) => {
                        let l = self.old(p).await?;
                        (io("open_write", l.open_write().await)?, Some(l))
                    }
                };
                let e = s.announce(b.name(), "built");
                let (mut a, mut r) = (Set::new(), Set::new());
                let parent = p.map(|p| (&s.old[p].0, pl.as_ref().unwrap()));
                self.items(&b, parent, items, false, |add, k, res| {
                    io("builder call", res)?;
                    if add {
                        a.insert(k);
                    } else {
                        r.insert(k);
                    }
                    Ok(true)
                })
                .await?;
                let m = ML::commit(p, p.map(|p| &s.old[p].0), &a, &r);
                if *load {
                    let l = io("commit", b.commit().await)?;
                    s.done(e, Some(m.clone()));
                    look(&s.voc, &l, &m, "layer, committed").await?;
                    s.saw(e, l, "returned by commit".into());
                } else {
                    io("commit_no_load", b.commit_no_load().await)?;
                    s.done(e, Some(m));
                }
                did("build");
            }
            SOp::Items(b, items) => {
                if s.builders.is_empty() {
                    return Ok(());
                }
                let sb = &s.builders[*b as usize % s.builders.len()];
                let parent = sb.parent.map(|p| (&s.old[p].0, sb.pl.as_ref().unwrap()));
                let over = sb.over.load(Ordering::SeqCst);
                self.items(&sb.b, parent, items, true, |add, k, res| match res {
                    Ok(()) => {
                        if over {
                            return Err(Fail::new("builder:late", "a builder that was committed took another call"));
                        }
                        if add { &sb.adds } else { &sb.rems }.lock().unwrap().insert(k);
                        did("shared builder call");
                        Ok(true)
                    }
                    Err(e) => {
                        if !sb.begun.load(Ordering::SeqCst) {
                            return Err(Fail::new("builder:refused", format!("nobody committed this builder, but it refuses a call: {:?} {}", e.kind(), e)));
                        }
                        Ok(false)
                    }
                })
                .await?;
            }
            SOp::Delta(b, x) => {
                if s.builders.is_empty() {
                    return Ok(());
                }
                let i = pick(*x, n);
                let sb = &s.builders[*b as usize % s.builders.len()];
                let l = match &s.handles[i] {
                    Some(l) => l.clone(),
                    None => self.old(i).await?,
                };
                let over = sb.over.load(Ordering::SeqCst);
                match sb.b.apply_delta(&l).await {
                    Ok(()) => {
                        let m = &s.old[i].0;
                        if over && m.adds.len() + m.rems.len() > 0 {
                            return Err(Fail::new("builder:late", "a builder that was committed took a delta"));
                        }
                        sb.adds.lock().unwrap().extend(m.adds.iter().cloned());
                        sb.rems.lock().unwrap().extend(m.rems.iter().cloned());
                        did("shared builder delta");
                    }
                    Err(e) => {
                        if !sb.begun.load(Ordering::SeqCst) {
                            return Err(Fail::new("builder:refused", format!("nobody committed this builder, but it refuses a delta: {:?} {}", e.kind(), e)));
                        }
                        sb.vague.store(true, Ordering::SeqCst);
                    }
                }
            }
            SOp::Commit(b, load) => {
                if s.builders.is_empty() {
                    return Ok(());
                }
                let sb = &s.builders[*b as usize % s.builders.len()];
                sb.begun.store(true, Ordering::SeqCst);
                let r = if *load {
                    sb.b.commit().await.map(Some)
                } else {
                    sb.b.commit_no_load().await.map(|_| None)
                };
                sb.over.store(true, Ordering::SeqCst);
                match r {
                    Ok(l) => {
                        sb.commits.fetch_add(1, Ordering::SeqCst);
                        s.done(sb.new, None);
                        if let Some(l) = l {
                            s.saw(sb.new, l, "returned by commit".into());
                        }
                        did("shared builder commit");
                    }
                    Err(e) if e.kind() == io::ErrorKind::InvalidData && e.to_string().contains("committed") => {
                        sb.refused.fetch_add(1, Ordering::SeqCst);
                    }
                    Err(e) => return Err(Fail::new("builder:commit", format!("commit failed: {:?} {}", e.kind(), e))),
                }
            }
            SOp::Committed(b) => {
                if s.builders.is_empty() {
                    return Ok(());
                }
                let sb = &s.builders[*b as usize % s.builders.len()];
                let over = sb.over.load(Ordering::SeqCst);
                let c = sb.b.committed();
                if c && !sb.begun.load(Ordering::SeqCst) {
                    return Err(Fail::new("builder:committed", "committed() is true, but nobody committed"));
                }
                if !c && over {
                    return Err(Fail::new("builder:committed", "committed() is false after a commit"));
                }
            }
            SOp::LoadNew(x) => {
                let (i, name, done, how) = {
                    let g = s.new.lock().unwrap();
                    if g.is_empty() {
                        return Ok(());
                    }
                    let i = g.len() - 1 - *x as usize % g.len();
                    (i, g[i].name, g[i].done, g[i].how)
                };
                if s.shows && !done && !s.making {
                    return Ok(());
                }
                let load = std::panic::AssertUnwindSafe(self.store.get_layer_from_id(name)).catch_unwind().await;
                let load = match load {
                    Ok(r) => r,
                    Err(_) => {
                        let e = take_panic().unwrap_or_default();
                        if s.making && !done {
                            s.half.lock().unwrap().push(format!("loading a layer in the making panics: {}", e));
                            return Ok(());
                        }
                        return Err(Fail::new("panic", format!("panic: {}", e)));
                    }
                };
                match load {
                    Ok(Some(l)) => {
                        did(if done { "load of a new layer" } else { "load of a layer in the making" });
                        s.saw(i, l, format!("loaded by client {} {}", self.id, if done { "when it was there" } else { "while it was made" }));
                    }
                    Ok(None) | Err(_) if !done => {
                        did("load of a layer in the making");
                    }
                    Ok(None) => return Err(Fail::new("layer:missing", format!("new layer {} ({}) is not found", i, how))),
                    Err(e) => return Err(Fail::new("layer:error", format!("new layer {} ({}) is not loaded: {:?} {}", i, how, e.kind(), e))),
                }
            }
            SOp::Listed => {
                let there: Vec<Name> = {
                    let g = s.new.lock().unwrap();
                    s.old.iter().map(|l| l.1).chain(g.iter().filter(|n| n.done).map(|n| n.name)).collect()
                };
                let v = io("layers", self.layers.layers().await)?;
                let set: BTreeSet<Name> = v.iter().cloned().collect();
                if set.len() != v.len() {
                    return Err(Fail::new("layers:twice", "a layer is listed twice"));
                }
                if let Some(m) = there.iter().find(|n| !set.contains(*n)) {
                    return Err(Fail::new("layers:missing", format!("layer {} is not listed", hexname(*m))));
                }
                for name in set {
                    if s.old.iter().any(|l| l.1 == name) {
                        continue;
                    }
                    let known = s.new.lock().unwrap().iter().position(|e| e.name == name && (e.done || !s.shows || s.making));
                    if known.is_none() && s.shows && !s.making {
                        continue;
                    }
                    // someone else's, maybe in the making
                    let done = known.map(|i| s.new.lock().unwrap()[i].done).unwrap_or(false);
                    let load = std::panic::AssertUnwindSafe(self.store.get_layer_from_id(name)).catch_unwind().await;
                    match (load, known) {
                        (Err(_), _) => {
                            let e = take_panic().unwrap_or_default();
                            if !s.making || done {
                                return Err(Fail::new("panic", format!("loading listed layer {}: panic: {}", hexname(name), e)));
                            }
                            s.half.lock().unwrap().push(format!("loading a listed layer in the making panics: {}", e));
                        }
                        (Ok(Ok(Some(l))), Some(i)) => s.saw(i, l, format!("listed and loaded by client {} {}", self.id, if done { "when it was there" } else { "while it was made" })),
                        (Ok(Ok(Some(l))), None) => {
                            did("load of an unnamed layer");
                            match (self.unnamed(&l, name), s.making) {
                                (Err(f), true) => s.half.lock().unwrap().push(f.msg),
                                (r, _) => r?,
                            }
                        }
                        _ => {}
                    }
                }
                did("list");
            }
            SOp::Rollup(x) => {
                let i = pick(*x, n);
                let l = self.old(i).await?;
                io("rollup", l.rollup().await)?;
                did("rollup");
            }
            SOp::Upto(x, u) | SOp::Imprecise(x, u) => {
                let i = pick(*x, n);
                let up = s.up(i, *u);
                let l = self.old(i).await?;
                let ul = self.old(up).await?;
                if matches!(op, SOp::Upto(..)) {
                    io("rollup_upto", l.rollup_upto(&ul).await)?;
                    did("rollup_upto");
                } else {
                    io("imprecise_rollup_upto", l.imprecise_rollup_upto(&ul).await)?;
                    did("imprecise_rollup_upto");
                }
            }
            SOp::Squash(x) => {
                let i = pick(*x, n);
                let l = self.old(i).await?;
                let q = io("squash", l.squash().await)?;
                let m = World::squashed(&s.old[i].0);
                look(&s.voc, &q, &m, "squash").await?;
                s.new_done(q.name(), m, "squash");
                did("squash");
            }
            SOp::SquashUpto(x, u) => {
                let i = pick(*x, n);
                let up = s.up(i, *u);
                if up != i {
                    let l = self.old(i).await?;
                    let ul = self.old(up).await?;
                    let q = io("squash_upto", l.squash_upto(&ul).await)?;
                    let (a, b) = (&s.old[i].0.set, &s.old[up].0.set);
                    let adds: Set = a.difference(b).cloned().collect();
                    let rems: Set = b.difference(a).cloned().collect();
                    let m = ML::commit(Some(up), Some(&s.old[up].0), &adds, &rems);
                    look(&s.voc, &q, &m, "squash_upto").await?;
                    s.new_done(q.name(), m, "squash_upto");
                    did("squash_upto");
                }
            }
            SOp::Merge(v) => {
                let bases: Vec<usize> = v.iter().map(|x| pick(*x, n)).filter(|i| s.old[*i].0.parent.is_none()).collect();
                if bases.is_empty() {
                    return Ok(());
                }
                let names: Vec<Name> = bases.iter().map(|i| s.old[*i].1).collect();
                let mut set = Set::new();
                for i in &bases {
                    set.extend(s.old[*i].0.set.iter().cloned());
                }
                let m = ML { parent: None, adds: Arc::new(set.clone()), rems: Default::default(), dict: Arc::new(crate::model::Dict::of(&set)), set: Arc::new(set), depth: 1 };
                let name = io("merge_base_layers", self.store.merge_base_layers(&names, &s.tmp).await)?;
                s.new_done(name, m, "merge");
                did("merge");
            }
            SOp::Import(mask) => {
                if !self.mt || s.packed.is_empty() {
                    return Ok(());
                }
                // with a layer come its ancestors
                let k = *mask as usize % s.packed.len();
                let want: Vec<usize> = s.packed[..=k].to_vec();
                let names: Vec<Name> = {
                    let g = s.new.lock().unwrap();
                    want.iter().map(|i| g[*i].name).collect()
                };
                io("import_layers", self.store.import_layers(&s.pack, Box::new(names.into_iter())).await)?;
                for i in want {
                    s.done(i, None);
                }
                did("import");
            }
            SOp::Export(x) => {
                if !self.mt {
                    return Ok(());
                }
                let i = pick(*x, n);
                io("export_layers", self.store.export_layers(Box::new(vec![s.old[i].1].into_iter())).await)?;
                did("export");
            }
        }
        Ok(())
    }
}

fn kind_of(k: u8) -> Kind {
    match k % 4 {
        0 => Kind::Mem,
        1 => Kind::Dir,
        2 => Kind::RawArchive,
        _ => Kind::Archive(16),
    }
}

/// The store, with or without pauses at each access, over what `base` holds.
fn open(base: &Base, slow: bool) -> (Store, CachedLayerStore) {
    let cache = LockingHashMapLayerCache::new;
    let c = match (base, slow) {
        (_, false) => base.cached(),
        (Base::Mem(l, _), true) => CachedLayerStore::new(Slow(l.clone()), cache()),
        (Base::Disk(k, p), true) => match k {
            Kind::Dir => CachedLayerStore::new(SlowWhole(DirectoryLayerStore::new(p.clone())), cache()),
            Kind::RawArchive => {
                let b = DirectoryArchiveBackend::new(p.clone());
                CachedLayerStore::new(SlowWhole(ArchiveLayerStore::new(b.clone(), b)), cache())
            }
            Kind::Archive(mb) => {
                let d = DirectoryArchiveBackend::new(p.clone());
                let b = LruArchiveBackend::new(d.clone(), d, *mb as usize);
                CachedLayerStore::new(SlowWhole(ArchiveLayerStore::new(b.clone(), b)), cache())
            }
            Kind::Mem => unreachable!(),
        },
    };
    let s = match base {
        Base::Mem(_, b) => Store::new(b.clone(), c.clone()),
        Base::Disk(_, p) => Store::new(DirectoryLabelStore::new(p.clone()), c.clone()),
    };
    (s, c)
}

pub struct C16;

struct Scene {
    base: Base,
    store: Store,
    cached: CachedLayerStore,
    s: Arc<Shared>,
}

async fn scene(c: &SCase, kind: Kind, slow: bool, ctx: &mut Ctx) -> R<Scene> {
    let mut w = World::new(kind, c.voc, ctx);
    w.keep = c.keep;
    for st in &c.before {
        w.apply(st, ctx).await?;
    }
    if w.layers.is_empty() {
        w.commit(&Commit { parent: None, items: vec![B::Add(crate::terms::T { s: 0, p: 0, o: 0, v: false }, false)], bulk: None }, ctx).await?;
    }
    // layers from elsewhere
    let mut pack = vec![];
    let mut foreign = vec![];
    if !c.pack.is_empty() {
        let mut f = World::new(Kind::Mem, c.voc, ctx);
        for st in &c.pack {
            f.apply(st, ctx).await?;
        }
        let names: Vec<Name> = f.layers.iter().map(|l| l.name).collect();
        pack = io("export_layers", on_mt(f.store.export_layers(Box::new(names.into_iter()))))?;
        foreign = f.layers.iter().map(|l| (l.name, l.m.clone())).collect();
    }
    let old: Vec<(ML, Name)> = w.layers.iter().map(|l| (l.m.clone(), l.name)).collect();
    let base = w.base.clone();
    drop(w);
    let (store, cached) = open(&base, slow);
    let mut handles = vec![];
    for l in &old {
        handles.push(match c.keep {
            false => None,
            true => io("get_layer_from_id", store.get_layer_from_id(l.1).await)?,
        });
    }
    let mut new = vec![];
    let mut builders = vec![];
    for p in &c.builders {
        let parent = p.map(|p| pick(p, old.len()));
        let (b, pl) = match parent {
            None => (io("create_base_layer", store.create_base_layer().await)?, None),
            Some(p) => {
                let l = io("get_layer_from_id", store.get_layer_from_id(old[p].1).await)?.ok_or_else(|| Fail::new("layer:missing", "before all"))?;
                (io("open_write", l.open_write().await)?, Some(l))
            }
        };
        new.push(New { name: b.name(), done: false, m: None, how: "built by all" });
        builders.push(SB {
            b,
            parent,
            pl,
            new: new.len() - 1,
            adds: Default::default(),
            rems: Default::default(),
            vague: AtomicBool::new(false),
            commits: AtomicUsize::new(0),
            refused: AtomicUsize::new(0),
            begun: AtomicBool::new(false),
            over: AtomicBool::new(false),
        });
    }
    let mut packed = vec![];
    for (name, m) in foreign {
        packed.push(new.len());
        new.push(New { name, done: false, m: Some(m), how: "imported" });
    }
    let s = Arc::new(Shared {
        voc: c.voc,
        old,
        handles,
        builders,
        new: Mutex::new(new),
        seen: Default::default(),
        pack,
        packed,
        tmp: ctx.new_dir(),
        shows: matches!(kind, Kind::Dir | Kind::Mem),
        making: matches!(c.mode, Mode::Making { .. }) && matches!(kind, Kind::Dir | Kind::Mem),
        unnamed_old: !c.clients.iter().flatten().any(|o| matches!(o, SOp::Merge(_))),
        half: Default::default(),
        failed: Default::default(),
        busy: AtomicUsize::new(0),
        overlapped: AtomicBool::new(false),
        did: Default::default(),
    });
    Ok(Scene { base, store, cached, s })
}

/// What has to hold when everyone is done.
async fn settle(sc: &Scene, ctx: &mut Ctx) -> R<()> {
    let s = &sc.s;
    for d in s.did.lock().unwrap().iter() {
        ctx.label(d);
    }
    if let Some(f) = s.failed.lock().unwrap().take() {
        return Err(f);
    }
    for (i, sb) in s.builders.iter().enumerate() {
        let n = sb.commits.load(Ordering::SeqCst);
        if n > 1 {
            return Err(Fail::new("builder:twice", format!("builder {} was committed {} times", i, n)));
        }
        if n == 0 && sb.refused.load(Ordering::SeqCst) > 0 {
            return Err(Fail::new("builder:never", format!("all commits of builder {} were refused", i)));
        }
        if sb.b.committed() != (n == 1) {
            return Err(Fail::new("builder:committed", format!("{} commits of builder {} succeeded, but committed() is {}", n, i, sb.b.committed())));
        }
        if n == 1 && !sb.vague.load(Ordering::SeqCst) {
            let m = ML::commit(sb.parent, sb.parent.map(|p| &s.old[p].0), &sb.adds.lock().unwrap(), &sb.rems.lock().unwrap());
            s.new.lock().unwrap()[sb.new].m = Some(m);
        }
    }
    let news = std::mem::take(&mut *s.new.lock().unwrap());
    let seen = std::mem::take(&mut *s.seen.lock().unwrap());
    for (i, l, what) in &seen {
        let e = &news[*i];
        let what = format!("new layer {} ({}), {}", i, e.how, what);
        let r = match (&e.m, e.done) {
            (_, false) => Err(Fail::new("layer:phantom", format!("{}: nobody finished it", what))),
            (Some(m), true) => {
                let r = std::panic::AssertUnwindSafe(async {
                    check_contents(&s.voc, l, m, &what)?;
                    changes(&s.voc, l, m, &what).await
                });
                match r.catch_unwind().await {
                    Ok(r) => r,
                    Err(_) => Err(Fail::new("panic", format!("{}: panic: {}", what, take_panic().unwrap_or_default()))),
                }
            }
            (None, true) => Ok(()),
        };
        match r {
            Err(f) if s.making && what.contains("while it was made") => s.half.lock().unwrap().push(f.msg),
            r => r?,
        }
    }
    let seen = if s.making { vec![] } else { seen };
    for h in s.half.lock().unwrap().drain(..) {
        ctx.report(Fail::new(if matches!(sc.base, Base::Mem(..)) { "memory:half-made" } else { "directory:half-made" }, h))?;
    }
    // the layers as they are now, in this store and for whoever opens it anew
    let again = sc.base.open();
    for (store, which) in [(&sc.store, "in the end"), (&again, "reopened")] {
        for (i, (m, name)) in s.old.iter().enumerate() {
            let what = format!("layer {}, {}", i, which);
            let l = io(&what, store.get_layer_from_id(*name).await)?.ok_or_else(|| Fail::new("layer:missing", what.clone()))?;
            look(&s.voc, &l, m, &what).await?;
        }
        for (i, e) in news.iter().enumerate() {
            let what = format!("new layer {} ({}), {}", i, e.how, which);
            if e.done {
                let l = io(&what, store.get_layer_from_id(e.name).await)?.ok_or_else(|| Fail::new("layer:missing", what.clone()))?;
                if let Some(m) = &e.m {
                    look(&s.voc, &l, m, &what).await?;
                    let p = match e.how {
                        "imported" => None,
                        _ => m.parent.map(|p| s.old[p].1),
                    };
                    if e.how != "imported" && io("parent", l.parent().await)?.map(|l| l.name()) != p {
                        return Err(Fail::new("layer:parent", format!("{}: wrong parent", what)));
                    }
                }
            }
        }
    }
    drop(seen);
    if let Base::Disk(_, p) = &sc.base {
        for e in std::fs::read_dir(p).unwrap() {
            let n = e.unwrap().file_name().to_string_lossy().into_owned();
            if n.len() != 3 {
                return Err(Fail::new("left-over", format!("{:?} is left in the store", n)));
            }
        }
    }
    ctx.nontrivial = s.overlapped.load(Ordering::SeqCst) && s.did.lock().unwrap().len() > 1;
    Ok(())
}

fn has_import(c: &SCase) -> bool {
    c.clients.iter().flatten().any(|o| matches!(o, SOp::Import(_)))
}

type Script = Vec<Box<dyn FnOnce(&tokio::runtime::Runtime) + Send>>;

impl C16 {
    /// One that commits and others that load what it commits.
    fn making(c: &SCase) -> SCase {
        let mut c = c.clone();
        let items = c.clients.iter().flatten().find_map(|o| match o {
            SOp::Build(_, i, _) => Some(i.clone()),
            _ => None,
        });
        c.pack.clear();
        c.builders.truncate(1);
        if c.builders.is_empty() {
            c.builders.push(None);
        }
        for (i, ops) in c.clients.iter_mut().enumerate() {
            *ops = match i {
                0 => {
                    let mut v = vec![SOp::Items(0, items.clone().unwrap_or_default()), SOp::Commit(0, false)];
                    v.extend(ops.iter().filter(|o| matches!(o, SOp::Rollup(_) | SOp::Upto(..) | SOp::Imprecise(..) | SOp::Squash(_) | SOp::SquashUpto(..))).cloned());
                    if v.len() == 2 {
                        v.push(SOp::Rollup(0));
                    }
                    if c.keep {
                        v.rotate_left(2);
                    }
                    v
                }
                _ => ops.iter().map(|o| if matches!(o, SOp::Build(..) | SOp::LoadNew(_) | SOp::Commit(..)) { SOp::LoadNew(0) } else { SOp::Listed }).collect(),
            };
        }
        c
    }
    fn calls(c: &SCase, kind: u8, shared: bool, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let kind = [Kind::Dir, Kind::Dir, Kind::RawArchive, Kind::Archive(16)][kind as usize % 4];
        // an archive store knows only its own layers in the making
        let sc = rt.block_on(scene(c, kind, false, ctx))?;
        let root = match &sc.base {
            Base::Disk(_, p) => p.clone(),
            _ => unreachable!(),
        };
        let mt = has_import(c);
        let mut scripts: Vec<Script> = vec![];
        for (i, ops) in c.clients.iter().enumerate() {
            let (store, cached) = if shared { (sc.store.clone(), sc.cached.clone()) } else { open(&sc.base, false) };
            let client = Arc::new(Client { id: i, store, layers: Arc::new(cached), s: sc.s.clone(), mt });
            scripts.push(
                ops.iter()
                    .map(|op| {
                        let client = client.clone();
                        let op = op.clone();
                        Box::new(move |rt: &tokio::runtime::Runtime| rt.block_on(client.run(&op))) as Box<dyn FnOnce(&tokio::runtime::Runtime) + Send>
                    })
                    .collect(),
            );
        }
        let trace = conc::threads_on(&root, scripts, &c.schedule, mt, shared && !matches!(kind, Kind::Dir))?;
        let switches = trace.windows(2).filter(|w| w[0].split(':').next() != w[1].split(':').next()).count();
        ctx.count("client switches at system calls", switches as u64);
        ctx.count("system calls scheduled", trace.len() as u64);
        rt.block_on(settle(&sc, ctx)).map_err(|f| f.ctx(format!("last accesses: {}", trace.iter().rev().take(30).rev().cloned().collect::<Vec<_>>().join(", "))))
    }
    fn tasks(c: &SCase, kind: u8, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let sc = rt.block_on(scene(c, kind_of(kind), true, ctx))?;
        let mt = has_import(c);
        let clients: Vec<Client> = (0..c.clients.len()).map(|i| Client { id: i, store: sc.store.clone(), layers: Arc::new(sc.cached.clone()), s: sc.s.clone(), mt }).collect();
        let mut tasks: Vec<conc::Task> = vec![];
        for (client, ops) in clients.iter().zip(&c.clients) {
            tasks.push(Box::pin(async move {
                for op in ops {
                    client.run(op).await;
                    conc::pause().await;
                }
            }));
        }
        let f = conc::explore(tasks, &c.schedule, Duration::from_secs(20));
        let polls = if mt { on_mt(f)? } else { rt.block_on(f)? };
        ctx.count("polls scheduled", polls);
        rt.block_on(settle(&sc, ctx))
    }
    fn stress(c: &SCase, kind: u8, rounds: u8, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let mut nt = false;
        for _ in 0..rounds {
            let sc = rt.block_on(scene(c, kind_of(kind), false, ctx))?;
            let n = c.clients.len();
            let barrier = Arc::new(AtomicUsize::new(0));
            let mut joins = vec![];
            for (i, ops) in c.clients.iter().enumerate() {
                let client = Client { id: i, store: sc.store.clone(), layers: Arc::new(sc.cached.clone()), s: sc.s.clone(), mt: true };
                let ops = ops.clone();
                let b = barrier.clone();
                joins.push(std::thread::spawn(move || {
                    mt_handle().block_on(async {
                        b.fetch_add(1, Ordering::SeqCst);
                        while b.load(Ordering::SeqCst) < n {
                            std::thread::yield_now();
                        }
                        for op in &ops {
                            client.run(op).await;
                        }
                    })
                }));
            }
            for j in joins {
                if j.join().is_err() {
                    return Err(Fail::new("panic", format!("panic: {}", take_panic().unwrap_or_default())));
                }
            }
            rt.block_on(settle(&sc, ctx))?;
            nt |= ctx.nontrivial;
        }
        ctx.count("rounds of real threads", rounds as u64);
        ctx.nontrivial = nt;
        Ok(())
    }
    fn files(c: &SCase, kind: u8, rounds: u16, ctx: &mut Ctx) -> R<()> {
        match kind % 3 {
            0 => files(MemoryLayerStore::new(), c.clients.len(), rounds, ctx),
            1 => {
                let b = DirectoryArchiveBackend::new(ctx.new_dir());
                files(ArchiveLayerStore::new(b.clone(), b), c.clients.len(), rounds, ctx)
            }
            _ => {
                let d = DirectoryArchiveBackend::new(ctx.new_dir());
                let b = LruArchiveBackend::new(d.clone(), d, 4);
                files(ArchiveLayerStore::new(b.clone(), b), c.clients.len(), rounds, ctx)
            }
        }
    }
}

/// Threads that ask for the same file of a new layer get the same file.
fn files<S: PersistentLayerStore>(store: S, n: usize, rounds: u16, ctx: &mut Ctx) -> R<()>
where
    S::File: 'static,
{
    let name = terminus_store::storage::consts::FILENAMES.node_dictionary_blocks;
    let rt = ctx.rt.clone();
    let dirs: Vec<Name> = rt.block_on(async {
        let mut v = vec![];
        for _ in 0..rounds {
            v.push(io("create_directory", store.create_directory().await)?);
        }
        R::Ok(v)
    })?;
    let dirs = Arc::new(dirs);
    let barrier = Arc::new(AtomicUsize::new(0));
    let mut joins = vec![];
    for _ in 0..n {
        let (store, dirs, b) = (store.clone(), dirs.clone(), barrier.clone());
        joins.push(std::thread::spawn(move || {
            let mut v = vec![];
            for (r, d) in dirs.iter().enumerate() {
                b.fetch_add(1, Ordering::SeqCst);
                let mut spins = 0;
                while b.load(Ordering::SeqCst) < (r + 1) * n {
                    spins += 1;
                    if spins > 2000 {
                        std::thread::yield_now();
                    } else {
                        std::hint::spin_loop();
                    }
                }
                v.push(futures::executor::block_on(store.get_file(*d, name)));
            }
            v
        }));
    }
    let mut got = vec![];
    for j in joins {
        match j.join() {
            Ok(v) => got.push(v),
            Err(_) => return Err(Fail::new("panic", format!("panic: {}", take_panic().unwrap_or_default()))),
        }
    }
    rt.block_on(async {
        let mut cols: Vec<Vec<S::File>> = vec![];
        for v in got {
            cols.push(v.into_iter().collect::<io::Result<Vec<_>>>().map_err(|e| Fail::new("file:error", format!("get_file failed: {:?} {}", e.kind(), e)))?);
        }
        for r in 0..rounds as usize {
            let writer = r % n;
            let mut f = io("open_write", cols[writer][r].open_write().await)?;
            io("write", f.write_all(b"contents").await)?;
            io("flush", f.flush().await)?;
            io("sync", f.sync_all().await)?;
            for (i, col) in cols.iter().enumerate() {
                let ok = matches!(col[r].map_if_exists().await, Ok(Some(b)) if &b[..] == b"contents");
                if !ok {
                    return Err(Fail::new("file:other", format!("clients {} and {} asked for the same file at once; what one writes the other does not see", writer, i)));
                }
            }
            let again = io("get_file", store.get_file(dirs[r], name).await)?;
            if !matches!(again.map_if_exists().await, Ok(Some(b)) if &b[..] == b"contents") {
                return Err(Fail::new("file:lost", "a file that was written is not in the layer"));
            }
        }
        Ok(())
    })?;
    ctx.count("files asked for by real threads", rounds as u64);
    ctx.nontrivial = true;
    Ok(())
}

impl Prop for C16 {
    type Case = SCase;
    const ID: &'static str = "C16";
    const RULE: &'static str = "distinct cases in which operations of different clients overlapped, and at least two kinds of operation took effect";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 1400 } else { 30000 }
    }
    fn strategy(_t: Tier) -> BoxedStrategy<SCase> {
        let size = gen::SMALL;
        let l = || prop_oneof![3 => 0u32..2, 1 => 0u32..6];
        let items = || prop::collection::vec(gen::bitem(gen::SMALL), 0..5);
        let op = prop_oneof![
            3 => l().prop_map(SOp::Load),
            1 => l().prop_map(SOp::Query),
            4 => (prop::option::weighted(0.7, l()), items(), any::<bool>()).prop_map(|(p, i, b)| SOp::Build(p, i, b)),
            5 => (0u8..2, items()).prop_map(|(b, i)| SOp::Items(b, i)),
            1 => (0u8..2, l()).prop_map(|(b, x)| SOp::Delta(b, x)),
            4 => (0u8..2, any::<bool>()).prop_map(|(b, x)| SOp::Commit(b, x)),
            1 => (0u8..2).prop_map(SOp::Committed),
            4 => (0u8..4).prop_map(SOp::LoadNew),
            1 => Just(SOp::Listed),
            3 => l().prop_map(SOp::Rollup),
            2 => (l(), 0u32..4).prop_map(|(a, b)| SOp::Upto(a, b)),
            2 => (l(), 0u32..4).prop_map(|(a, b)| SOp::Imprecise(a, b)),
            1 => l().prop_map(SOp::Squash),
            1 => (l(), 0u32..4).prop_map(|(a, b)| SOp::SquashUpto(a, b)),
            1 => prop::collection::vec(0u32..6, 1..4).prop_map(SOp::Merge),
        ];
        let imports = prop_oneof![3 => (0u8..3).prop_map(SOp::Import), 1 => l().prop_map(SOp::Export)];
        let op = op.boxed();
        let plain = prop::collection::vec(prop::collection::vec(op.clone(), 1..4), 2..4);
        let importing = prop::collection::vec(prop::collection::vec(prop_oneof![2 => imports, 3 => op], 1..4), 2..4);
        let w = gen::Weights { commit: 6, rollup: 1, rollup_upto: 1, imprecise: 1, squash: 0, squash_upto: 0, merge: 0, reopen: 0, forget: 0, transfer: 0, abandon: 0, adopt: 0 };
        let pack = prop_oneof![
            4 => (Just(vec![]), plain),
            1 => (gen::history(size, &gen::COMMITS_ONLY, 2), importing),
        ];
        let mode = prop_oneof![
            10 => (0u8..4, any::<bool>()).prop_map(|(kind, shared)| Mode::Calls { kind, shared }),
            24 => (0u8..4).prop_map(|kind| Mode::Tasks { kind }),
            4 => (0u8..4, 1u8..6).prop_map(|(kind, rounds)| Mode::Threads { kind, rounds }),
            3 => (any::<bool>(), prop_oneof![Just(0u8), Just(1u8), Just(2u8), Just(2u8), Just(3u8), Just(3u8)]).prop_map(|(shared, kind)| Mode::Making { shared, kind }),
            1 => (0u8..3, 50u16..500).prop_map(|(kind, rounds)| Mode::Files { kind, rounds }),
        ];
        let builders = prop::collection::vec(prop::option::weighted(0.7, 0u32..3), 0..3);
        (gen::voc(size), mode, gen::history(size, &w, 5), any::<bool>(), builders, pack, schedule(80))
            .prop_map(|(voc, mode, before, keep, builders, (pack, clients), schedule)| SCase { voc, mode, before, keep, builders, pack, clients, schedule })
            .boxed()
    }
    fn run(c: &SCase, ctx: &mut Ctx) -> R<()> {
        ctx.label(match c.mode {
            Mode::Calls { shared: true, .. } => "one store, interleaved at system calls",
            Mode::Calls { shared: false, .. } => "several stores on one path, interleaved at system calls",
            Mode::Tasks { kind } => ["tasks, memory", "tasks, directory", "tasks, raw archive", "tasks, archive"][kind as usize % 4],
            Mode::Making { kind, .. } => ["directory store, layers in the making", "memory store, layers in the making", "raw archive, layers in the making", "archive, layers in the making"][kind as usize % 4],
            Mode::Threads { .. } => "real threads",
            Mode::Files { .. } => "real threads, files",
        });
        match c.mode {
            Mode::Calls { kind, shared } => Self::calls(c, kind, shared, ctx),
            Mode::Making { shared, kind } => match kind % 4 {
                0 => Self::calls(&Self::making(c), 0, shared, ctx),
                k if shared || k == 1 => Self::stress(&Self::making(c), [0, 0, 2, 3][k as usize], 3, ctx),
                k => Self::tasks(&Self::making(c), k, ctx),
            },
            Mode::Tasks { kind } => Self::tasks(c, kind, ctx),
            Mode::Threads { kind, rounds } => Self::stress(c, kind, rounds, ctx),
            Mode::Files { kind, rounds } => Self::files(c, kind, rounds, ctx),
        }
    }
    fn max_shrink() -> u32 {
        500
    }
    fn assumptions() -> Vec<String> {
        vec![
            "Loading a layer whose commit has not returned may find it, not find it, or fail; if it is found it must be complete.".into(),
            "System calls are the steps of directory-backed stores; each is atomic.".into(),
        ]
    }
}
