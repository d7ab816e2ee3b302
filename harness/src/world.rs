//! Applies generated store operations to the real store and to the model at the same time.
use crate::model::{Bulk, Layer as ML, Set, B, K};
use crate::runner::{Ctx, Fail, R};
use crate::terms::{Voc, O, T};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::Arc;
use terminus_store::layer::{IdTriple, Layer, ObjectType};
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend};
use terminus_store::storage::directory::{
    CachedDirectoryLabelStore, DirectoryLabelStore, DirectoryLayerStore,
};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{CachedLayerStore, LayerStore, LockingHashMapLayerCache};
use terminus_store::store::{Store, StoreLayer, StoreLayerBuilder};

pub type Name = [u32; 5];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Commit {
    /// None: a base layer; Some(n): on the n-th existing layer (modulo), counted from the newest
    pub parent: Option<u32>,
    pub items: Vec<B>,
    pub bulk: Option<Bulk>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Step {
    Commit(Commit),
    /// a builder that is filled and then dropped without being committed
    Abandon(Commit),
    Rollup(u32),
    /// layer, number of generations to go up
    RollupUpto(u32, u32),
    ImpreciseUpto(u32, u32),
    Squash(u32),
    SquashUpto(u32, u32),
    /// merge these base layers (non-base choices are replaced by their squash)
    Merge(Vec<u32>),
    /// forget all handles and open the store again
    Reopen,
    /// drop the handle of one layer, so that it gets loaded again
    Forget(u32),
    /// export these layers, and import them into a new store of the given kind, where the
    /// history continues
    Transfer(u8),
    /// from now on, use one of the layers that were made for a rollup like any other layer
    Adopt(u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Mem,
    Dir,
    RawArchive,
    Archive(u8),
}

impl Kind {
    pub fn of(n: u8) -> Kind {
        match n % 4 {
            0 => Kind::Mem,
            1 => Kind::Dir,
            2 => Kind::RawArchive,
            _ => Kind::Archive(16),
        }
    }
}

/// What persists over reopening.
#[derive(Clone)]
pub enum Base {
    Mem(MemoryLayerStore, MemoryLabelStore),
    Disk(Kind, PathBuf),
}

impl Base {
    pub fn new(kind: Kind, ctx: &mut Ctx) -> Base {
        match kind {
            Kind::Mem => Base::Mem(MemoryLayerStore::new(), MemoryLabelStore::new()),
            k => Base::Disk(k, ctx.new_dir()),
        }
    }
    /// Opens the store the way the crate's own openers do.
    pub fn open(&self) -> Store {
        match self {
            Base::Mem(l, b) => Store::new(
                b.clone(),
                CachedLayerStore::new(l.clone(), LockingHashMapLayerCache::new()),
            ),
            Base::Disk(k, p) => match k {
                Kind::Dir => terminus_store::open_directory_store(p),
                Kind::RawArchive => terminus_store::store::open_raw_archive_store(p),
                Kind::Archive(mb) => terminus_store::open_archive_store(p, *mb as usize),
                Kind::Mem => unreachable!(),
            },
        }
    }
    /// The layer store without any layer cache on top.
    pub fn raw(&self) -> Arc<dyn LayerStore> {
        match self {
            Base::Mem(l, _) => Arc::new(l.clone()),
            Base::Disk(k, p) => match k {
                Kind::Dir => Arc::new(DirectoryLayerStore::new(p.clone())),
                Kind::RawArchive => {
                    let b = DirectoryArchiveBackend::new(p.clone());
                    Arc::new(ArchiveLayerStore::new(b.clone(), b))
                }
                Kind::Archive(mb) => {
                    let d = DirectoryArchiveBackend::new(p.clone());
                    let b = LruArchiveBackend::new(d.clone(), d, *mb as usize);
                    Arc::new(ArchiveLayerStore::new(b.clone(), b))
                }
                Kind::Mem => unreachable!(),
            },
        }
    }
    /// A caching layer store as used inside of the openers.
    pub fn cached(&self) -> CachedLayerStore {
        match self {
            Base::Mem(l, _) => CachedLayerStore::new(l.clone(), LockingHashMapLayerCache::new()),
            Base::Disk(k, p) => match k {
                Kind::Dir => CachedLayerStore::new(
                    DirectoryLayerStore::new(p.clone()),
                    LockingHashMapLayerCache::new(),
                ),
                Kind::RawArchive => {
                    let b = DirectoryArchiveBackend::new(p.clone());
                    CachedLayerStore::new(
                        ArchiveLayerStore::new(b.clone(), b),
                        LockingHashMapLayerCache::new(),
                    )
                }
                Kind::Archive(mb) => {
                    let d = DirectoryArchiveBackend::new(p.clone());
                    let b = LruArchiveBackend::new(d.clone(), d, *mb as usize);
                    CachedLayerStore::new(
                        ArchiveLayerStore::new(b.clone(), b),
                        LockingHashMapLayerCache::new(),
                    )
                }
                Kind::Mem => unreachable!(),
            },
        }
    }
    pub async fn labels(&self, cached: bool) -> std::io::Result<Arc<dyn terminus_store::storage::LabelStore>> {
        Ok(match self {
            Base::Mem(_, b) => Arc::new(b.clone()),
            Base::Disk(_, p) => {
                if cached {
                    Arc::new(CachedDirectoryLabelStore::open(p.clone()).await?)
                } else {
                    Arc::new(DirectoryLabelStore::new(p.clone()))
                }
            }
        })
    }
}

pub struct RL {
    pub m: ML,
    pub name: Name,
    pub handle: Option<StoreLayer>,
    /// was this layer ever the target of a rollup that was expected to do something
    pub rolled: u32,
    pub how: &'static str,
}

pub struct World {
    pub voc: Voc,
    pub base: Base,
    pub store: Store,
    pub layers: Vec<RL>,
    pub abandoned: Vec<Name>,
    pub rollups: u32,
    /// keep handles of layers after they are created (they stay in the cache)
    pub keep: bool,
    pub max_layers: usize,
    /// where merges put their temporary files (a new scratch directory if not set)
    pub tmp: Option<PathBuf>,
    /// find out the names of the layers made for rollups, so that they can be adopted
    pub track: bool,
    /// layers made for rollups, with what they roll up and their parent
    pub made: Vec<(Name, usize, Option<usize>)>,
}

pub fn adopts(steps: &[Step]) -> bool {
    steps.iter().any(|s| matches!(s, Step::Adopt(_)))
}

pub fn io<Tv>(what: &str, r: std::io::Result<Tv>) -> R<Tv> {
    r.map_err(|e| Fail::new(format!("io:{}", what), format!("{} failed: {:?} {}", what, e.kind(), e)))
}

pub fn hexname(n: Name) -> String {
    terminus_store::storage::name_to_string(n)
}

impl World {
    pub fn new(kind: Kind, voc: Voc, ctx: &mut Ctx) -> World {
        let base = Base::new(kind, ctx);
        let store = base.open();
        World {
            voc,
            base,
            store,
            layers: vec![],
            abandoned: vec![],
            rollups: 0,
            keep: true,
            max_layers: 40,
            tmp: None,
            track: false,
            made: vec![],
        }
    }

    pub fn pick(&self, n: u32) -> Option<usize> {
        if self.layers.is_empty() {
            None
        } else {
            let len = self.layers.len();
            Some(len - 1 - (n as usize % len))
        }
    }

    /// the ancestor `up` generations above (0 = the layer itself), clamped at the base layer
    pub fn up(&self, l: usize, up: u32) -> usize {
        let mut cur = l;
        for _ in 0..up % (self.layers[l].m.depth as u32 + 1) {
            match self.layers[cur].m.parent {
                Some(p) => cur = p,
                None => break,
            }
        }
        cur
    }

    pub fn path(&self, l: usize) -> Vec<usize> {
        let mut v = vec![l];
        let mut cur = l;
        while let Some(p) = self.layers[cur].m.parent {
            v.push(p);
            cur = p;
        }
        v.reverse();
        v
    }

    pub async fn layer(&mut self, ix: usize) -> R<StoreLayer> {
        if let Some(h) = &self.layers[ix].handle {
            return Ok(h.clone());
        }
        let name = self.layers[ix].name;
        let l = io("get_layer_from_id", self.store.get_layer_from_id(name).await)?;
        match l {
            None => Err(Fail::new("layer-missing", format!("committed layer #{} is not found", ix))),
            Some(l) => {
                if self.keep {
                    self.layers[ix].handle = Some(l.clone());
                }
                Ok(l)
            }
        }
    }

    /// Fills a builder and returns the sets it should have recorded.
    pub fn fill(
        voc: &Voc,
        b: &StoreLayerBuilder,
        parent: Option<(&ML, &dyn Layer)>,
        items: &[B],
        ctx: &mut Ctx,
    ) -> R<(Set, Set)> {
        let mut adds = Set::new();
        let mut rems = Set::new();
        let existing: Vec<K> = parent.map(|(p, _)| p.set.iter().cloned().collect()).unwrap_or_default();
        for item in items {
            let (k, add, byid) = match *item {
                B::Add(t, i) => (voc.norm(t), true, i),
                B::Rem(t, i) => (voc.norm(t), false, i),
                B::AddEx(n, i) | B::RemEx(n, i) => {
                    if existing.is_empty() {
                        continue;
                    }
                    (existing[n as usize % existing.len()], matches!(item, B::AddEx(..)), i)
                }
            };
            let mut id = None;
            if byid {
                if let Some((pm, pl)) = parent {
                    if pm.dict.knows(&k) {
                        id = pl.value_triple_to_id(&voc.triple(k));
                        if id.is_none() {
                            return Err(Fail::new(
                                "term-unknown",
                                format!("parent does not resolve the known terms of {:?}", voc.triple(k)),
                            ));
                        }
                        ctx.label("builder-call-by-id");
                    }
                }
            }
            let r = match (add, id) {
                (true, None) => b.add_value_triple(voc.triple(k)),
                (false, None) => b.remove_value_triple(voc.triple(k)),
                (true, Some(id)) => b.add_id_triple(id),
                (false, Some(id)) => b.remove_id_triple(id),
            };
            io("builder call", r)?;
            if add {
                adds.insert(k);
            } else {
                rems.insert(k);
            }
        }
        Ok((adds, rems))
    }

    pub fn all_items(c: &Commit) -> Vec<B> {
        let mut items = c.items.clone();
        if let Some(b) = &c.bulk {
            items.extend(b.expand());
        }
        items
    }

    pub async fn open_builder(&mut self, c: &Commit, ctx: &mut Ctx) -> R<(StoreLayerBuilder, Option<usize>, Set, Set)> {
        let pix = match c.parent {
            None => None,
            Some(n) => self.pick(n),
        };
        let items = Self::all_items(c);
        let voc = self.voc;
        match pix {
            None => {
                let b = io("create_base_layer", self.store.create_base_layer().await)?;
                let (a, r) = Self::fill(&voc, &b, None, &items, ctx)?;
                Ok((b, None, a, r))
            }
            Some(p) => {
                let pl = self.layer(p).await?;
                let b = io("open_write", pl.open_write().await)?;
                let (a, r) = Self::fill(&voc, &b, Some((&self.layers[p].m, &pl)), &items, ctx)?;
                Ok((b, Some(p), a, r))
            }
        }
    }

    pub fn push(&mut self, m: ML, l: StoreLayer, how: &'static str) -> usize {
        let name = l.name();
        self.layers.push(RL {
            m,
            name,
            handle: if self.keep { Some(l) } else { None },
            rolled: 0,
            how,
        });
        self.layers.len() - 1
    }

    pub async fn commit(&mut self, c: &Commit, ctx: &mut Ctx) -> R<usize> {
        let (b, pix, a, r) = self.open_builder(c, ctx).await?;
        let l = io("commit", b.commit().await)?;
        let m = ML::commit(pix, pix.map(|p| &self.layers[p].m), &a, &r);
        if !m.rems.is_empty() {
            ctx.label("commit-with-removals");
        }
        if !m.adds.is_empty() && m.parent.is_some() {
            ctx.label("child-with-additions");
        }
        if a.intersection(&r).next().is_some() {
            ctx.label("commit-with-cancellation");
        }
        if m.set.len() > 500 {
            ctx.label("layer>500-triples");
        }
        Ok(self.push(m, l, "commit"))
    }

    /// Applies a step. Returns the index of a newly created layer, if any.
    pub async fn apply(&mut self, s: &Step, ctx: &mut Ctx) -> R<Option<usize>> {
        let full = self.layers.len() >= self.max_layers;
        match s {
            Step::Commit(c) => {
                if full {
                    return Ok(None);
                }
                ctx.label("op:commit");
                Ok(Some(self.commit(c, ctx).await?))
            }
            Step::Abandon(c) => {
                let (b, _, _, _) = self.open_builder(c, ctx).await?;
                self.abandoned.push(b.name());
                ctx.label("op:abandon");
                Ok(None)
            }
            Step::Rollup(n) => {
                if let Some(ix) = self.pick(*n) {
                    let l = self.layer(ix).await?;
                    let before = self.listed().await?;
                    io("rollup", l.rollup().await)?;
                    drop(l);
                    self.after_rollup(ix, self.layers[ix].m.depth > 1);
                    self.find_made(before, ix, Some(None)).await?;
                    ctx.label("op:rollup");
                    if self.path(ix).iter().filter(|x| self.layers[**x].rolled > 0).count() > 1 {
                        ctx.label("op:rollup-over-rollup");
                    }
                }
                Ok(None)
            }
            Step::RollupUpto(n, u) | Step::ImpreciseUpto(n, u) => {
                if let Some(ix) = self.pick(*n) {
                    let up = self.up(ix, *u);
                    let l = self.layer(ix).await?;
                    let ul = self.layer(up).await?;
                    let repeated = self.layers[ix].rolled > 0;
                    let before = self.listed().await?;
                    if matches!(s, Step::RollupUpto(..)) {
                        io("rollup_upto", l.rollup_upto(&ul).await)?;
                        ctx.label("op:rollup_upto");
                    } else {
                        io("imprecise_rollup_upto", l.imprecise_rollup_upto(&ul).await)?;
                        ctx.label("op:imprecise_rollup_upto");
                    }
                    if repeated {
                        ctx.label("op:partial-rollup-of-rolled-layer");
                    }
                    let effective = up != ix && self.layers[ix].m.parent != Some(up);
                    self.after_rollup(ix, effective);
                    let parent = if matches!(s, Step::RollupUpto(..)) { Some(Some(up)) } else { None };
                    self.find_made(before, ix, parent).await?;
                }
                Ok(None)
            }
            Step::Squash(n) => {
                if let (Some(ix), false) = (self.pick(*n), full) {
                    let l = self.layer(ix).await?;
                    let q = io("squash", l.squash().await)?;
                    let m = Self::squashed(&self.layers[ix].m);
                    ctx.label("op:squash");
                    return Ok(Some(self.push(m, q, "squash")));
                }
                Ok(None)
            }
            Step::SquashUpto(n, u) => {
                if let (Some(ix), false) = (self.pick(*n), full) {
                    let up = self.up(ix, *u);
                    if up == ix {
                        return Ok(None);
                    }
                    let l = self.layer(ix).await?;
                    let ul = self.layer(up).await?;
                    let q = io("squash_upto", l.squash_upto(&ul).await)?;
                    let (a, b) = (&self.layers[ix].m.set, &self.layers[up].m.set);
                    let adds: Set = a.difference(b).cloned().collect();
                    let rems: Set = b.difference(a).cloned().collect();
                    let m = ML::commit(Some(up), Some(&self.layers[up].m), &adds, &rems);
                    ctx.label("op:squash_upto");
                    return Ok(Some(self.push(m, q, "squash_upto")));
                }
                Ok(None)
            }
            Step::Merge(v) => {
                if full || self.layers.is_empty() || v.is_empty() {
                    return Ok(None);
                }
                let mut names = vec![];
                let mut set = Set::new();
                let mut dict = crate::model::Dict::default();
                for n in v {
                    let ix = self.pick(*n).unwrap();
                    set.extend(self.layers[ix].m.set.iter().cloned());
                    if self.layers[ix].m.parent.is_none() {
                        // a layer made for a rollup has terms without triples
                        let d = &self.layers[ix].m.dict;
                        dict.nodes.extend(d.nodes.iter());
                        dict.preds.extend(d.preds.iter());
                        dict.values.extend(d.values.iter());
                    }
                    if self.layers[ix].how == "adopted rollup" {
                        ctx.label("op:merge-of-rollup");
                    }
                    if self.layers[ix].m.parent.is_some() {
                        let l = self.layer(ix).await?;
                        let q = io("squash", l.squash().await)?;
                        let m = Self::squashed(&self.layers[ix].m);
                        names.push(q.name());
                        self.push(m, q, "squash");
                    } else {
                        names.push(self.layers[ix].name);
                    }
                }
                let tmp = match &self.tmp {
                    Some(t) => t.clone(),
                    None => ctx.new_dir(),
                };
                let name = io("merge_base_layers", self.store.merge_base_layers(&names, &tmp).await)?;
                let l = io("get_layer_from_id", self.store.get_layer_from_id(name).await)?
                    .ok_or_else(|| Fail::new("layer-missing", "merged layer is not found"))?;
                for k in &set {
                    dict.absorb(k);
                }
                let m = ML {
                    parent: None,
                    adds: Arc::new(set.clone()),
                    rems: Default::default(),
                    set: Arc::new(set),
                    dict: Arc::new(dict),
                    depth: 1,
                };
                ctx.label("op:merge");
                Ok(Some(self.push(m, l, "merge")))
            }
            Step::Reopen => {
                self.reopen();
                ctx.label("op:reopen");
                Ok(None)
            }
            Step::Forget(n) => {
                if let Some(ix) = self.pick(*n) {
                    self.layers[ix].handle = None;
                    ctx.label("op:forget");
                }
                Ok(None)
            }
            Step::Transfer(k) => {
                self.transfer(*k, ctx).await?;
                Ok(None)
            }
            Step::Adopt(n) => {
                if self.made.is_empty() || full {
                    return Ok(None);
                }
                let at = *n as usize % self.made.len();
                let (name, ix, parent) = self.made.remove(at);
                let l = io("get_layer_from_id", self.store.get_layer_from_id(name).await)?
                    .ok_or_else(|| Fail::new("layer-missing", "a listed layer made for a rollup is not found"))?;
                let of = self.layers[ix].m.clone();
                let m = match parent {
                    // it keeps the ids, and therefore all the terms
                    None => ML { parent: None, adds: of.set.clone(), rems: Default::default(), depth: 1, ..of },
                    Some(p) => {
                        let pm = &self.layers[p].m;
                        let adds: Set = of.set.difference(&pm.set).cloned().collect();
                        let rems: Set = pm.set.difference(&of.set).cloned().collect();
                        ML { dict: of.dict.clone(), ..ML::commit(Some(p), Some(pm), &adds, &rems) }
                    }
                };
                ctx.label("op:adopt");
                Ok(Some(self.push(m, l, "adopted rollup")))
            }
        }
    }

    pub async fn listed(&self) -> R<Vec<Name>> {
        if !self.track {
            return Ok(vec![]);
        }
        io("layers", self.base.raw().layers().await)
    }

    /// `parent` is None if it is not known.
    pub async fn find_made(&mut self, before: Vec<Name>, ix: usize, parent: Option<Option<usize>>) -> R<()> {
        if !self.track {
            return Ok(());
        }
        for name in self.listed().await? {
            if before.contains(&name) {
                continue;
            }
            let p = io("get_layer_parent_name", self.base.raw().get_layer_parent_name(name).await)?;
            let is = match p {
                None => None,
                Some(p) => match self.layers.iter().position(|l| l.name == p) {
                    Some(p) if self.path(ix).contains(&p) => Some(p),
                    _ => return Err(Fail::new("rollup-parent", "the parent of a layer made for a rollup is not an ancestor of what it rolls up")),
                },
            };
            if parent.map(|w| w != is).unwrap_or(false) {
                return Err(Fail::new("rollup-parent", format!("a layer made for a rollup up to {:?} has the parent {:?}", parent, is)));
            }
            self.made.push((name, ix, is));
        }
        Ok(())
    }

    pub fn squashed(m: &ML) -> ML {
        ML {
            parent: None,
            adds: m.set.clone(),
            rems: Default::default(),
            set: m.set.clone(),
            dict: Arc::new(crate::model::Dict::of(&m.set)),
            depth: 1,
        }
    }

    fn after_rollup(&mut self, ix: usize, effective: bool) {
        if effective {
            self.layers[ix].rolled += 1;
            self.rollups += 1;
        }
    }

    pub fn reopen(&mut self) {
        for l in self.layers.iter_mut() {
            l.handle = None;
        }
        self.store = self.base.open();
    }

    /// Moves the whole world to a new store through a pack.
    pub async fn transfer(&mut self, k: u8, ctx: &mut Ctx) -> R<()> {
        let names: Vec<Name> = self.layers.iter().map(|l| l.name).collect();
        let pack = io("export_layers", crate::runner::on_mt(self.store.export_layers(Box::new(names.clone().into_iter()))))?;
        let base = Base::new(Kind::of(k), ctx);
        let store = base.open();
        io("import_layers", crate::runner::on_mt(store.import_layers(&pack, Box::new(names.into_iter()))))?;
        self.base = base;
        self.store = store;
        self.made.clear();
        for l in self.layers.iter_mut() {
            l.handle = None;
            l.rolled = 0;
        }
        ctx.label("op:transfer");
        Ok(())
    }

    pub fn show(&self, k: &K) -> String {
        let t = self.voc.triple(*k);
        format!("{:?}", t)
    }
}

pub fn bounded<I: Iterator<Item = IdTriple>>(what: &str, it: I, limit: usize) -> R<Vec<IdTriple>> {
    let mut v = Vec::new();
    for t in it {
        v.push(t);
        if v.len() > limit {
            return Err(Fail::new(
                format!("{}:unbounded", what),
                format!("{} yields more than {} triples", what, limit),
            ));
        }
    }
    Ok(v)
}

/// Resolves the expected triples to ids, through the layer's own dictionary.
pub fn expect_ids(voc: &Voc, l: &dyn Layer, set: &Set) -> R<BTreeSet<IdTriple>> {
    let mut out = BTreeSet::new();
    for k in set {
        let vt = voc.triple(*k);
        match l.value_triple_to_id(&vt) {
            Some(id) => {
                out.insert(id);
            }
            None => {
                return Err(Fail::new(
                    "term-unresolved",
                    format!("terms of an existing triple have no id: {:?}", vt),
                ))
            }
        }
    }
    if out.len() != set.len() {
        return Err(Fail::new("ids-collide", "distinct triples resolve to the same ids"));
    }
    Ok(out)
}

pub fn brief(v: &[IdTriple]) -> String {
    let s: Vec<String> = v
        .iter()
        .take(12)
        .map(|t| format!("({},{},{})", t.subject, t.predicate, t.object))
        .collect();
    format!("{} [{}{}]", v.len(), s.join(" "), if v.len() > 12 { " ..." } else { "" })
}

/// Compares a returned list with an expected set: same elements, each once.
pub fn same(what: &str, got: &[IdTriple], want: &BTreeSet<IdTriple>) -> R<()> {
    let g: BTreeSet<IdTriple> = got.iter().cloned().collect();
    if g.len() != got.len() {
        return Err(Fail::new(
            format!("{}:duplicates", what),
            format!("{} yields a triple more than once: {}", what, brief(got)),
        ));
    }
    if &g != want {
        let missing: Vec<IdTriple> = want.difference(&g).cloned().collect();
        let extra: Vec<IdTriple> = g.difference(want).cloned().collect();
        return Err(Fail::new(
            format!("{}:wrong", what),
            format!("{}: missing {}; unexpected {}", what, brief(&missing), brief(&extra)),
        ));
    }
    Ok(())
}

/// Contents by value, each once, count.
pub fn check_contents(voc: &Voc, l: &dyn Layer, m: &ML, what: &str) -> R<()> {
    let want: BTreeSet<_> = m.set.iter().map(|k| voc.triple(*k)).collect();
    let got = bounded(&format!("{} triples()", what), l.triples(), want.len() * 2 + 50)?;
    let mut gv = BTreeSet::new();
    for t in &got {
        match l.id_triple_to_string(t) {
            None => {
                return Err(Fail::new(
                    "contents:unresolvable",
                    format!("{}: listed triple {:?} does not resolve to terms", what, t),
                ))
            }
            Some(v) => {
                if !gv.insert(v.clone()) {
                    return Err(Fail::new("contents:duplicate", format!("{}: triple listed twice: {:?}", what, v)));
                }
            }
        }
    }
    if gv != want {
        let missing: Vec<_> = want.difference(&gv).take(4).collect();
        let extra: Vec<_> = gv.difference(&want).take(4).collect();
        return Err(Fail::new(
            "contents:wrong",
            format!(
                "{}: {} triples listed, {} expected; missing {:?}; unexpected {:?}",
                what,
                gv.len(),
                want.len(),
                missing,
                extra
            ),
        ));
    }
    let n = l.triple_count();
    if n != want.len() {
        return Err(Fail::new(
            "contents:count",
            format!("{}: triple_count() is {} but there are {} triples", what, n, want.len()),
        ));
    }
    Ok(())
}

/// Existence by value over (a deterministic sample of) the cross product of the vocabulary.
pub fn check_existence(voc: &Voc, l: &dyn Layer, m: &ML, what: &str, limit: usize) -> R<()> {
    for k in m.set.iter() {
        if !l.value_triple_exists(&voc.triple(*k)) {
            return Err(Fail::new(
                "exists:false-negative",
                format!("{}: {:?} is in the layer but reported absent", what, voc.triple(*k)),
            ));
        }
    }
    let total = voc.nn as u64 * voc.np as u64 * (voc.nn + voc.nv) as u64;
    let stride = (total / limit as u64).max(1) | 1;
    let mut i = 0u64;
    while i < total {
        let s = (i % voc.nn as u64) as u32;
        let r = i / voc.nn as u64;
        let p = (r % voc.np as u64) as u32;
        let o = (r / voc.np as u64) as u32;
        let o = if o < voc.nn { O::N(o) } else { O::V(o - voc.nn) };
        let k = (s, p, o);
        if l.value_triple_exists(&voc.triple(k)) != m.set.contains(&k) {
            return Err(Fail::new(
                "exists:wrong",
                format!("{}: existence of {:?} is reported wrongly", what, voc.triple(k)),
            ));
        }
        i += stride;
    }
    Ok(())
}

/// All pattern queries against a filter over the expected ids.
pub fn check_patterns(l: &dyn Layer, want: &BTreeSet<IdTriple>, what: &str, pairs: usize) -> R<()> {
    let limit = want.len() + 50;
    let nn = l.node_and_value_count() as u64;
    let np = l.predicate_count() as u64;
    same(&format!("{} triples", what), &bounded("triples", l.triples(), limit)?, want)?;
    let sample = |n: u64| -> Vec<u64> {
        let mut v: Vec<u64> = if n <= 40 {
            (1..=n + 3).collect()
        } else {
            let st = n / 32;
            (1..=n + 3).filter(|i| i % st == 0 || *i < 6 || *i + 4 > n).collect()
        };
        v.push(n + 1000);
        v
    };
    let subjects = sample(nn);
    let preds = sample(np);
    for &s in &subjects {
        let w: BTreeSet<IdTriple> = want.iter().filter(|t| t.subject == s).cloned().collect();
        same(
            &format!("{} triples_s", what),
            &bounded("triples_s", l.triples_s(s), limit)?,
            &w,
        )
        .map_err(|f| f.ctx(format!("subject {}", s)))?;
    }
    for &p in &preds {
        let w: BTreeSet<IdTriple> = want.iter().filter(|t| t.predicate == p).cloned().collect();
        same(
            &format!("{} triples_p", what),
            &bounded("triples_p", l.triples_p(p), limit)?,
            &w,
        )
        .map_err(|f| f.ctx(format!("predicate {}", p)))?;
    }
    for &o in &subjects {
        let w: BTreeSet<IdTriple> = want.iter().filter(|t| t.object == o).cloned().collect();
        same(
            &format!("{} triples_o", what),
            &bounded("triples_o", l.triples_o(o), limit)?,
            &w,
        )
        .map_err(|f| f.ctx(format!("object {}", o)))?;
    }
    // subject+predicate and single triples
    let mut sp: BTreeSet<(u64, u64)> = BTreeSet::new();
    let all = subjects.len() * preds.len();
    let stride = (all / pairs.max(1)).max(1);
    for i in (0..all).step_by(stride) {
        sp.insert((subjects[i % subjects.len()], preds[i / subjects.len()]));
    }
    let st = (want.len() / pairs.max(1)).max(1);
    for t in want.iter().step_by(st) {
        sp.insert((t.subject, t.predicate));
    }
    for (s, p) in sp {
        let w: BTreeSet<IdTriple> = want
            .range(IdTriple::new(s, p, 0)..=IdTriple::new(s, p, u64::MAX))
            .cloned()
            .collect();
        same(
            &format!("{} triples_sp", what),
            &bounded("triples_sp", l.triples_sp(s, p), limit)?,
            &w,
        )
        .map_err(|f| f.ctx(format!("subject {} predicate {}", s, p)))?;
        let single = l.single_triple_sp(s, p);
        let ok = match single {
            None => w.is_empty(),
            Some(t) => w.contains(&t),
        };
        if !ok {
            return Err(Fail::new(
                format!("{} single_triple_sp:wrong", what),
                format!("{}: single_triple_sp({},{}) = {:?}, expected one of {:?}", what, s, p, single, w),
            ));
        }
        // existence: members and near misses
        let mut os: BTreeSet<u64> = w.iter().flat_map(|t| [t.object.saturating_sub(1).max(1), t.object, t.object + 1]).collect();
        os.insert(1);
        os.insert(nn + 1);
        for o in os {
            let e = l.triple_exists(s, p, o);
            if e != w.contains(&IdTriple::new(s, p, o)) {
                return Err(Fail::new(
                    format!("{} triple_exists:wrong", what),
                    format!("{}: triple_exists({},{},{}) = {}", what, s, p, o, e),
                ));
            }
        }
    }
    Ok(())
}

/// The dictionary of the layer against the model. Returns the ids of all terms.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Ids {
    pub nodes: std::collections::BTreeMap<u32, u64>,
    pub preds: std::collections::BTreeMap<u32, u64>,
    pub values: std::collections::BTreeMap<u32, u64>,
}

pub fn check_dictionary(voc: &Voc, l: &dyn Layer, m: &ML, what: &str) -> R<Ids> {
    let bad = |sig: &str, msg: String| -> Fail { Fail::new(format!("dict:{}", sig), format!("{}: {}", what, msg)) };
    let d = &m.dict;
    let c = l.all_counts();
    if (c.node_count, c.predicate_count, c.value_count) != (d.nodes.len(), d.preds.len(), d.values.len()) {
        return Err(bad(
            "counts",
            format!(
                "counts (nodes, predicates, values) are {:?}, expected {:?}",
                (c.node_count, c.predicate_count, c.value_count),
                (d.nodes.len(), d.preds.len(), d.values.len())
            ),
        ));
    }
    if l.node_and_value_count() != d.nodes.len() + d.values.len() || l.predicate_count() != d.preds.len() {
        return Err(bad("counts", "node_and_value_count/predicate_count disagree with the history".into()));
    }
    let mut ids = Ids::default();
    let mut used = BTreeSet::new();
    for &n in &d.nodes {
        let name = voc.node(n);
        let id = l.subject_id(&name).ok_or_else(|| bad("node-lost", format!("node {:?} has no id", name)))?;
        if l.object_node_id(&name) != Some(id) {
            return Err(bad("node-object-id", format!("node {:?} has id {} as subject but {:?} as object", name, id, l.object_node_id(&name))));
        }
        if id == 0 || id > (d.nodes.len() + d.values.len()) as u64 || !used.insert(id) {
            return Err(bad("id-collision", format!("node {:?} has id {}, which is out of range or taken", name, id)));
        }
        if l.id_subject(id).as_deref() != Some(&name) {
            return Err(bad("node-roundtrip", format!("node {:?} has id {} which resolves to {:?}", name, id, l.id_subject(id))));
        }
        if l.id_object(id) != Some(ObjectType::Node(name.clone()))
            || l.id_object_node(id).as_deref() != Some(&name)
            || l.id_object_is_node(id) != Some(true)
            || l.id_object_is_value(id) != Some(false)
        {
            return Err(bad("node-roundtrip", format!("node {:?} id {} resolves as object to {:?}", name, id, l.id_object(id))));
        }
        ids.nodes.insert(n, id);
    }
    for &v in &d.values {
        let val = voc.value(v);
        let id = l.object_value_id(&val).ok_or_else(|| bad("value-lost", format!("value {:?} has no id", val)))?;
        if id == 0 || id > (d.nodes.len() + d.values.len()) as u64 || !used.insert(id) {
            return Err(bad("id-collision", format!("value {:?} has id {}, which is out of range or taken", val, id)));
        }
        if l.id_object(id) != Some(ObjectType::Value(val.clone()))
            || l.id_object_value(id) != Some(val.clone())
            || l.id_object_is_node(id) != Some(false)
            || l.id_object_is_value(id) != Some(true)
        {
            return Err(bad("value-roundtrip", format!("value {:?} id {} resolves to {:?}", val, id, l.id_object(id))));
        }
        if l.id_subject(id).is_some() {
            return Err(bad("value-as-node", format!("the id {} of value {:?} resolves as a subject", id, val)));
        }
        ids.values.insert(v, id);
    }
    let mut usedp = BTreeSet::new();
    for &p in &d.preds {
        let name = voc.pred(p);
        let id = l.predicate_id(&name).ok_or_else(|| bad("pred-lost", format!("predicate {:?} has no id", name)))?;
        if id == 0 || id > d.preds.len() as u64 || !usedp.insert(id) {
            return Err(bad("id-collision", format!("predicate {:?} has id {}, which is out of range or taken", name, id)));
        }
        if l.id_predicate(id).as_deref() != Some(&name) {
            return Err(bad("pred-roundtrip", format!("predicate {:?} id {} resolves to {:?}", name, id, l.id_predicate(id))));
        }
        ids.preds.insert(p, id);
    }
    // unknown terms
    let step = |n: u32| ((n / 200).max(1)) as usize;
    for n in (0..voc.nn + 3).step_by(step(voc.nn)) {
        if !d.nodes.contains(&n) {
            let name = voc.node(n);
            if l.subject_id(&name).is_some() || l.object_node_id(&name).is_some() {
                return Err(bad("node-invented", format!("unknown node {:?} has an id", name)));
            }
        }
    }
    for n in (0..voc.np + 3).step_by(step(voc.np)) {
        if !d.preds.contains(&n) {
            let name = voc.pred(n);
            if l.predicate_id(&name).is_some() {
                return Err(bad("pred-invented", format!("unknown predicate {:?} has an id", name)));
            }
        }
    }
    for n in (0..voc.nv + 3).step_by(step(voc.nv)) {
        if !d.values.contains(&n) {
            let val = voc.value(n);
            if l.object_value_id(&val).is_some() {
                return Err(bad("value-invented", format!("unknown value {:?} has an id", val)));
            }
        }
    }
    // ids beyond the dictionary
    let top = (d.nodes.len() + d.values.len()) as u64;
    for id in [top + 1, top + 2, top + 9, top + 1000] {
        if l.id_subject(id).is_some() || l.id_object(id).is_some() || l.id_object_is_node(id).is_some() {
            return Err(bad("id-invented", format!("id {} beyond the dictionary resolves to {:?}", id, l.id_object(id))));
        }
    }
    let top = d.preds.len() as u64;
    for id in [top + 1, top + 2, top + 9, top + 1000] {
        if l.id_predicate(id).is_some() {
            return Err(bad("id-invented", format!("predicate id {} beyond the dictionary resolves to {:?}", id, l.id_predicate(id))));
        }
    }
    Ok(ids)
}

/// id 0 is never assigned
pub fn tid(s: u64, p: u64, o: u64) -> IdTriple {
    IdTriple::new(s, p, o)
}

pub fn t(s: u32, p: u32, o: u32, v: bool) -> T {
    T { s, p, o, v }
}
