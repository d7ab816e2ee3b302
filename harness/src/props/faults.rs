//! C13: crashes at every storage access; C14: failures of every storage access.
use crate::fsim::{self, Class, Op, Plan};
use crate::gen::*;
use crate::model::Layer as ML;
use crate::observe::*;
use crate::props::labels::{ancestor_or_self, label_name, AnyLabels, LV};
use crate::runner::*;
use crate::terms::Voc;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use terminus_store::layer::{Layer, ValueTriple};
use terminus_store::storage::LabelStore;
use terminus_store::store::Store;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum VOp {
    Step(Step),
    /// commit, and make the result the head of a label
    CommitHead(Commit, u8),
    Create(u8),
    Delete(u8),
    SetHead(u8, u32),
    ForceHead(u8, u32),
    ForceVersion(u8, u32),
    Clear(u8),
    /// import the prepared pack
    Import,
    /// load a layer again and look at all of it
    Look(u32),
    /// list labels and read all heads
    Heads,
    /// list all layers
    Layers,
    /// export everything
    Export,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FCase {
    pub kind: u8,
    pub cached_labels: bool,
    pub style: u8,
    pub voc: Voc,
    pub history: Vec<Step>,
    /// labels that exist beforehand, with the layer they point to
    pub labels: Vec<(u8, Option<u32>)>,
    pub pack: Vec<Commit>,
    /// load all layers before the first operation
    pub warm: bool,
    pub ops: Vec<VOp>,
    pub sel: u64,
}

fn fkind(n: u8) -> Kind {
    match n % 4 {
        0 => Kind::Dir,
        1 => Kind::RawArchive,
        2 => Kind::Archive(16),
        _ => Kind::Archive(0),
    }
}

fn bad<Tv>(s: &str, m: String) -> R<Tv> {
    Err(Fail::new(s, m))
}

type Labels = BTreeMap<String, LV>;

pub struct Rig {
    pub w: World,
    dir: PathBuf,
    cached: bool,
    style: u8,
    labels: Labels,
    lstore: Arc<dyn LabelStore>,
    pack: Arc<Vec<u8>>,
    packed: Arc<Vec<(Name, ML)>>,
    imported: bool,
    /// a change of a label that is under way: its name and new value
    pending: Option<(String, Option<LV>)>,
}

impl Rig {
    async fn open_at(dir: &Path, kind: Kind, cached: bool) -> R<(Base, Store, Arc<dyn LabelStore>)> {
        let p = dir.join("store");
        std::fs::create_dir_all(&p).unwrap();
        std::fs::create_dir_all(dir.join("tmp")).unwrap();
        let base = Base::Disk(kind, p);
        let l = io("open labels", base.labels(cached).await)?;
        let store = Store::new(AnyLabels(l.clone()), base.cached());
        Ok((base, store, l))
    }
    async fn setup(c: &FCase, ctx: &mut Ctx) -> R<Rig> {
        let kind = fkind(c.kind);
        let dir = ctx.new_dir();
        let (base, store, lstore) = Self::open_at(&dir, kind, c.cached_labels).await?;
        let mut w = World {
            voc: c.voc,
            base,
            store,
            layers: vec![],
            abandoned: vec![],
            rollups: 0,
            keep: true,
            max_layers: 24,
            tmp: Some(dir.join("tmp")),
            track: false,
            made: vec![],
        };
        for s in &c.history {
            w.apply(s, ctx).await?;
        }
        // the pack comes from another store
        let mut src = World::new(Kind::Mem, c.voc, ctx);
        for s in &c.pack {
            src.commit(s, ctx).await?;
        }
        let names: Vec<Name> = src.layers.iter().map(|l| l.name).collect();
        let bytes = io("export_layers", on_mt(src.store.export_layers(Box::new(names.into_iter()))))?;
        let packed = src.layers.iter().map(|l| (l.name, l.m.clone())).collect();
        let mut r = Rig {
            w,
            dir,
            cached: c.cached_labels,
            style: c.style,
            labels: Labels::new(),
            lstore,
            pack: Arc::new(bytes),
            packed: Arc::new(packed),
            imported: false,
            pending: None,
        };
        for (n, h) in &c.labels {
            let name = label_name(c.style, *n);
            if r.labels.contains_key(&name) {
                continue;
            }
            let g = io("create", r.w.store.create(&name).await)?;
            let mut v: LV = (None, 0);
            if let Some(h) = h {
                if let Some(ix) = r.w.pick(*h) {
                    let l = r.w.layer(ix).await?;
                    io("set_head", g.set_head(&l).await)?;
                    v = (Some(ix), 1);
                }
            }
            r.labels.insert(name, v);
        }
        Ok(r)
    }
    /// The same acknowledged state, in a copy of the files, opened anew.
    async fn fork(&self, ctx: &mut Ctx, from: &Path) -> R<Rig> {
        let dir = ctx.new_dir();
        fsim::copy_tree(from, &dir);
        self.reopened(dir).await
    }
    async fn reopened(&self, dir: PathBuf) -> R<Rig> {
        let kind = match &self.w.base {
            Base::Disk(k, _) => *k,
            _ => unreachable!(),
        };
        let (base, store, lstore) = Self::open_at(&dir, kind, self.cached).await?;
        let layers = self
            .w
            .layers
            .iter()
            .map(|l| RL { m: l.m.clone(), name: l.name, handle: None, rolled: l.rolled, how: l.how })
            .collect();
        Ok(Rig {
            w: World {
                voc: self.w.voc,
                base,
                store,
                layers,
                abandoned: vec![],
                rollups: self.w.rollups,
                keep: true,
                max_layers: 40,
                tmp: Some(dir.join("tmp")),
                track: false,
                made: vec![],
            },
            dir,
            cached: self.cached,
            style: self.style,
            labels: self.labels.clone(),
            lstore,
            pack: self.pack.clone(),
            packed: self.packed.clone(),
            imported: self.imported,
            pending: self.pending.clone(),
        })
    }
    async fn warm(&mut self) -> R<()> {
        for ix in 0..self.w.layers.len() {
            self.w.layer(ix).await?;
        }
        Ok(())
    }
    fn anc(&self, l: usize, a: usize) -> bool {
        let parents: Vec<Option<usize>> = self.w.layers.iter().map(|l| l.m.parent).collect();
        ancestor_or_self(&parents, l, a)
    }
    fn begin(&mut self, name: &str, v: Option<LV>) {
        self.pending = Some((name.to_string(), v));
    }
    fn done(&mut self) {
        if let Some((n, v)) = self.pending.take() {
            match v {
                Some(v) => self.labels.insert(n, v),
                None => self.labels.remove(&n),
            };
        }
    }
    async fn set_head(&mut self, name: &str, ix: usize, how: u8) -> R<()> {
        let l = self.w.layer(ix).await?;
        let cur = self.labels.get(name).cloned();
        let g = match io("open", self.w.store.open(name).await)? {
            Some(g) => {
                if cur.is_none() {
                    return bad("label:invented", format!("label {:?} is found but was not created", name));
                }
                g
            }
            None => {
                if cur.is_some() {
                    return bad("label:lost", format!("label {:?} is not found", name));
                }
                return Ok(());
            }
        };
        let cur = cur.unwrap();
        let allowed = how != 0 || cur.0.map(|a| self.anc(ix, a)).unwrap_or(true);
        if allowed {
            self.begin(name, Some((Some(ix), cur.1 + 1)));
        }
        let ok = match how {
            0 => io("set_head", g.set_head(&l).await)?,
            1 => {
                io("force_set_head", g.force_set_head(&l).await)?;
                true
            }
            _ => io("force_set_head_version", g.force_set_head_version(&l, cur.1).await)?,
        };
        if ok != allowed {
            return bad("label:refused", format!("setting the head of {:?} (way {}) gives {} instead of {}", name, how, ok, allowed));
        }
        if ok {
            self.done();
        }
        Ok(())
    }
    pub async fn apply(&mut self, op: &VOp, ctx: &mut Ctx) -> R<()> {
        self.pending = None;
        match op {
            VOp::Step(s) => {
                self.w.apply(s, ctx).await?;
            }
            VOp::CommitHead(c, n) => {
                let ix = self.w.commit(c, ctx).await?;
                let name = label_name(self.style, *n);
                self.set_head(&name, ix, 0).await?;
            }
            VOp::Create(n) => {
                let name = label_name(self.style, *n);
                let have = self.labels.contains_key(&name);
                if !have {
                    self.begin(&name, Some((None, 0)));
                }
                let r = self.w.store.create(&name).await;
                if have {
                    if r.is_ok() {
                        return bad("label:create-twice", format!("creating the existing label {:?} succeeded", name));
                    }
                } else {
                    io("create", r)?;
                    self.done();
                }
            }
            VOp::Delete(n) => {
                let name = label_name(self.style, *n);
                let have = self.labels.contains_key(&name);
                if have {
                    self.begin(&name, None);
                }
                let r = io("delete", self.w.store.delete(&name).await)?;
                if r != have {
                    return bad("label:delete", format!("deleting {:?} gives {} instead of {}", name, r, have));
                }
                if have {
                    self.done();
                }
            }
            VOp::SetHead(n, l) | VOp::ForceHead(n, l) | VOp::ForceVersion(n, l) => {
                let name = label_name(self.style, *n);
                if let Some(ix) = self.w.pick(*l) {
                    let how = match op {
                        VOp::SetHead(..) => 0,
                        VOp::ForceHead(..) => 1,
                        _ => 2,
                    };
                    self.set_head(&name, ix, how).await?;
                }
            }
            VOp::Clear(n) => {
                let name = label_name(self.style, *n);
                let cur = self.labels.get(&name).cloned();
                let l = io("get_label", self.lstore.get_label(&name).await)?;
                if l.is_some() != cur.is_some() {
                    return bad("label:lost", format!("label {:?} is {}", name, if l.is_some() { "found but was not created" } else { "not found" }));
                }
                if let (Some(l), Some(cur)) = (l, cur) {
                    self.begin(&name, Some((None, cur.1 + 1)));
                    if io("clear_label", self.lstore.clear_label(&l).await)?.is_none() {
                        return bad("label:refused", format!("clearing {:?} is refused", name));
                    }
                    self.done();
                }
            }
            VOp::Import => {
                if self.imported {
                    return Ok(());
                }
                let names: Vec<Name> = self.packed.iter().map(|l| l.0).collect();
                let r = on_mt(self.w.store.import_layers(&self.pack, Box::new(names.into_iter())));
                io("import_layers", r)?;
                let off = self.w.layers.len();
                for (name, m) in self.packed.clone().iter() {
                    let mut m = m.clone();
                    m.parent = m.parent.map(|p| p + off);
                    self.w.layers.push(RL { m, name: *name, handle: None, rolled: 0, how: "import" });
                }
                self.imported = true;
            }
            VOp::Look(n) => {
                if let Some(ix) = self.w.pick(*n) {
                    self.w.layers[ix].handle = None;
                    let l = self.w.layer(ix).await?;
                    let s = snap(&self.w, &l, ix, "look").await?;
                    snap_matches_model(&self.w, &l, &s, ix, "look").await?;
                    // the uncached ways
                    let by = ByName(self.w.base.raw(), self.w.layers[ix].name);
                    let m = &self.w.layers[ix].m;
                    for add in [true, false] {
                        let n = io("change count", by.count(add).await)?;
                        let want = if add { m.adds.len() } else { m.rems.len() };
                        if n != want {
                            return bad("changes:count", format!("change count is {}, expected {}", n, want));
                        }
                        let v = io("changes", by.all(add, want + 20).await)?;
                        same("changes by name", &v, if add { &s.adds } else { &s.rems })?;
                    }
                }
            }
            VOp::Heads => self.check_labels().await?,
            VOp::Layers => self.check_layer_list().await?,
            VOp::Export => {
                let names: Vec<Name> = self.w.layers.iter().map(|l| l.name).collect();
                let p = io("export_layers", on_mt(self.w.store.export_layers(Box::new(names.clone().into_iter()))))?;
                // what was exported has to be complete: the import is not among the accesses
                let mut t = World::new(Kind::Mem, self.w.voc, ctx);
                io("import of the export", on_mt(t.store.import_layers(&p, Box::new(names.into_iter())))).map_err(|f| Fail::new("export:broken", f.msg))?;
                t.layers = self.w.layers.iter().map(|l| RL { m: l.m.clone(), name: l.name, handle: None, rolled: 0, how: l.how }).collect();
                Watch::new().all(&mut t, "exported layer", ctx).await.map_err(|f| Fail::new(format!("export:{}", f.sig.trim_start_matches("io:")), f.msg))?;
            }
        }
        Ok(())
    }
    async fn check_labels(&mut self) -> R<()> {
        let mut v = io("labels", self.w.store.labels().await)?;
        v.sort();
        let want: Vec<String> = self.labels.keys().cloned().collect();
        if v != want {
            return bad("label:list", format!("labels() is {:?}, expected {:?}", v, want));
        }
        for (name, lv) in &self.labels {
            let g = match io("open", self.w.store.open(name).await)? {
                Some(g) => g,
                None => return bad("label:lost", format!("label {:?} is not found", name)),
            };
            let (h, ver) = io("head_version", g.head_version().await)?;
            let want = lv.0.map(|i| self.w.layers[i].name);
            if h.as_ref().map(|h| h.name()) != want || ver != lv.1 {
                return bad(
                    "label:value",
                    format!("label {:?} has version {} and head {:?}, expected {} and {:?}", name, ver, h.map(|h| hexname(h.name())), lv.1, want.map(hexname)),
                );
            }
        }
        Ok(())
    }
    async fn check_layer_list(&mut self) -> R<()> {
        let v = io("layers", self.w.base.raw().layers().await)?;
        for (i, l) in self.w.layers.iter().enumerate() {
            if v.iter().filter(|n| **n == l.name).count() != 1 {
                return bad("list:layer", format!("layer #{} is listed {} times", i, v.iter().filter(|n| **n == l.name).count()));
            }
        }
        Ok(())
    }
    /// After an interrupted change of a label: old or new value, nothing else.
    async fn resolve_pending(&mut self) -> R<()> {
        if let Some((name, new)) = self.pending.take() {
            let old = self.labels.get(&name).cloned();
            let l = self.lstore.get_label(&name).await.map_err(|e| Fail::new("label:unreadable", format!("label {:?} cannot be read after an interrupted change: {}", name, e)))?;
            let is = |v: &Option<LV>| match (&l, v) {
                (None, None) => true,
                (Some(l), Some(v)) => l.version == v.1 && l.layer == v.0.map(|i| self.w.layers[i].name) && l.name == name,
                _ => false,
            };
            if is(&new) {
                match new {
                    Some(v) => self.labels.insert(name, v),
                    None => self.labels.remove(&name),
                };
            } else if !is(&old) {
                return bad("label:neither", format!("label {:?} is {:?} after an interrupted change from {:?} to {:?}", name, l, old, new));
            }
        }
        Ok(())
    }
    /// Everything that is known to exist.
    async fn verify(&mut self, what: &str, ctx: &mut Ctx) -> R<()> {
        self.check_labels().await.map_err(|f| f.ctx(what))?;
        self.check_layer_list().await.map_err(|f| f.ctx(what))?;
        let all: Vec<usize> = (0..self.w.layers.len()).collect();
        Watch::new().look(&mut self.w, &all, what, ctx).await?;
        Ok(())
    }
    /// New work on whatever there is.
    async fn new_work(&mut self, what: &str, ctx: &mut Ctx) -> R<()> {
        let c = Commit { parent: Some(0), items: vec![crate::model::B::Add(t(0, 0, 1, false), false), crate::model::B::RemEx(0, false)], bulk: None };
        self.w.max_layers = 60;
        let f = |f: Fail| f.ctx(format!("new work, {}", what));
        let ix = self.w.commit(&c, ctx).await.map_err(f)?;
        let name = "a fresh label".to_string();
        io("create", self.w.store.create(&name).await).map_err(f)?;
        self.labels.insert(name.clone(), (None, 0));
        self.set_head(&name, ix, 0).await.map_err(f)?;
        let names: Vec<String> = self.labels.keys().cloned().collect();
        for n in names {
            self.set_head(&n, ix, 1).await.map_err(f)?;
        }
        let l = self.w.layer(ix).await?;
        io("rollup", l.rollup().await).map_err(f)?;
        Ok(())
    }
}

fn interesting(o: &Op) -> bool {
    let last = o.path.rsplit('/').next().unwrap_or("");
    o.path.contains(".label")
        || last.contains("rollup")
        || matches!(o.class, Class::Rename | Class::Unlink | Class::Link | Class::Truncate | Class::Mkdir | Class::Lock | Class::OpenDir | Class::ReadDir)
        || (o.class == Class::Sync && !last.contains('.'))
        || (o.class == Class::OpenRead && !last.contains('.'))
}

/// Chooses positions in a log.
fn points(log: &[&Op], k: usize, sel: u64) -> Vec<usize> {
    let n = log.len();
    if n <= k {
        return (0..n).collect();
    }
    let hot: Vec<usize> = (0..n).filter(|i| interesting(log[*i])).collect();
    let mut x = sel.wrapping_mul(2).wrapping_add(1);
    let mut r = || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (x >> 33) as usize
    };
    for _ in 0..3 {
        r();
    }
    let mut v = std::collections::BTreeSet::new();
    // the accesses of each kind to each kind of file
    let mut strata: std::collections::BTreeMap<(String, String), Vec<usize>> = Default::default();
    for (i, o) in log.iter().enumerate() {
        strata.entry((file_kind(&o.path), format!("{:?}", o.class))).or_default().push(i);
    }
    let strata: Vec<Vec<usize>> = strata.into_values().collect();
    for i in 0..k * 3 {
        if v.len() >= k {
            break;
        }
        if i % 3 == 0 && !hot.is_empty() {
            v.insert(hot[r() % hot.len()]);
        } else if i % 3 == 1 {
            let s = &strata[r() % strata.len()];
            v.insert(s[r() % s.len()]);
        } else {
            v.insert(r() % n);
        }
    }
    v.into_iter().collect()
}

/// What sort of file it is: its name, for the files of layers.
fn file_kind(path: &str) -> String {
    let last = path.rsplit('/').next().unwrap_or("");
    let base = last.split('.').next().unwrap_or("");
    match last {
        _ if last.contains(".label") => "label".into(),
        _ if last.contains(".larch") => "archive".into(),
        _ if last.contains("rollup") => "rollup".into(),
        _ if base.len() == 3 || base.len() == 40 => "directory".into(),
        _ => last.into(),
    }
}

fn describe(o: &Op) -> String {
    format!("{:?} of {:?}{}", o.class, o.path, if o.len > 0 { format!(" ({})", o.len) } else { String::new() })
}

async fn limited<F: std::future::Future<Output = R<()>>>(f: F) -> R<()> {
    match tokio::time::timeout(Duration::from_secs(25), f).await {
        Ok(r) => r,
        Err(_) => bad("blocked", "the operation does not end".to_string()),
    }
}

/// Runs the operations under a plan that stops at some point. Returns how many operations were
/// completed, and the failure that ended it.
fn drive(rig: &mut Rig, ops: &[VOp], plan: Plan, ctx: &mut Ctx) -> (usize, Option<Fail>, Option<String>, fsim::Outcome, fsim::Crashed) {
    let rt = ctx.rt.clone();
    let dir = rig.dir.clone();
    let mut done = 0;
    fsim::arm(&dir, plan);
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
        rt.block_on(async {
            for op in ops {
                limited(rig.apply(op, ctx)).await?;
                if fsim::hit().is_some() {
                    // finished in spite of it
                    if fsim::crashed() {
                        return Ok(());
                    }
                }
                done += 1;
                if fsim::hit().is_some() {
                    return Ok(());
                }
            }
            Ok(())
        })
    }));
    let (out, crash) = fsim::disarm();
    let panic = take_panic();
    match r {
        Ok(Ok(())) => (done, None, panic, out, crash),
        Ok(Err(f)) => (done, Some(f), panic, out, crash),
        Err(_) => (done, Some(Fail::new("panic", "panic")), panic.or(Some("panic".into())), out, crash),
    }
}

fn ops_strategy(tier: Tier, reads: bool) -> BoxedStrategy<FCase> {
    let _ = tier;
    let s = SMALL;
    let near = || prop_oneof![3 => 0u32..2, 1 => 0u32..12];
    let lab = || prop_oneof![3 => Just(0u8), 2 => Just(1u8), 1 => 2u8..4];
    let w = Weights { commit: 5, abandon: 0, rollup: 3, rollup_upto: 2, imprecise: 2, squash: 2, squash_upto: 1, merge: 2, reopen: 0, forget: 1, transfer: 0, adopt: 0 };
    let hw = Weights { commit: 6, abandon: 0, rollup: 2, rollup_upto: 1, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 0, forget: 0, transfer: 0, adopt: 0 };
    let mut v: Vec<(u32, BoxedStrategy<VOp>)> = vec![
        (8, step(s, &w).prop_map(VOp::Step).boxed()),
        (4, (commit(s), lab()).prop_map(|(c, l)| VOp::CommitHead(c, l)).boxed()),
        (3, lab().prop_map(VOp::Create).boxed()),
        (2, lab().prop_map(VOp::Delete).boxed()),
        (2, (lab(), near()).prop_map(|(a, b)| VOp::SetHead(a, b)).boxed()),
        (2, (lab(), near()).prop_map(|(a, b)| VOp::ForceHead(a, b)).boxed()),
        (1, (lab(), near()).prop_map(|(a, b)| VOp::ForceVersion(a, b)).boxed()),
        (2, lab().prop_map(VOp::Clear).boxed()),
        (2, Just(VOp::Import).boxed()),
    ];
    if reads {
        v.push((5, near().prop_map(VOp::Look).boxed()));
        v.push((2, Just(VOp::Heads).boxed()));
        v.push((1, Just(VOp::Layers).boxed()));
        v.push((2, Just(VOp::Export).boxed()));
    }
    let op = proptest::strategy::Union::new_weighted(v);
    (
        (0u8..4, any::<bool>(), prop_oneof![Just(0u8), Just(1u8), Just(2u8), Just(4u8)], voc(s), history(s, &hw, 4)),
        (
            prop::collection::vec((lab(), prop_oneof![1 => Just(None), 3 => near().prop_map(Some)]), 0..3),
            prop::collection::vec(commit(s), 1..3),
            any::<bool>(),
            prop::collection::vec(op, 1..4),
            any::<u64>(),
        ),
    )
        .prop_map(|((kind, cached_labels, style, voc, history), (labels, pack, warm, ops, sel))| FCase { kind, cached_labels, style, voc, history, labels, pack, warm, ops, sel })
        .boxed()
}

// ---------------------------------------------------------------- C13

pub struct C13;

impl Prop for C13 {
    type Case = FCase;
    const ID: &'static str = "C13";
    const RULE: &'static str = "distinct cases in which at least four crash points inside of operations were explored, at least one of them with unflushed data to lose";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 500 } else { 4000 }
    }
    fn max_shrink() -> u32 {
        300
    }
    fn assumptions() -> Vec<String> {
        vec![
            "a write that lies within one 512-byte sector happens completely or not at all; larger ones may be torn at a sector boundary".into(),
            "flushed data and directory entries survive; of everything else any part may be lost (a file and its directory entry are flushed separately)".into(),
        ]
    }
    fn strategy(t: Tier) -> BoxedStrategy<FCase> {
        ops_strategy(t, false)
    }
    fn run(c: &FCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let origin = rt.block_on(Rig::setup(c, ctx))?;
        let from = origin.dir.clone();
        // a run without a crash, to know the accesses
        let mut a = rt.block_on(origin.fork(ctx, &from))?;
        if c.warm {
            rt.block_on(a.warm())?;
        }
        let (_, f, p, out, _) = drive(&mut a, &c.ops, Plan::Count, ctx);
        if let Some(f) = f {
            return Err(f.ctx(p.unwrap_or_default()));
        }
        let muts: Vec<&Op> = out.log.iter().filter(|o| o.mutating || o.class == Class::Sync).collect();
        ctx.count("storage accesses that modify or flush", muts.len() as u64);
        let k = if ctx.exhaustive || ctx.tier == Tier::Thorough { 60 } else { 7 };
        let k = if ctx.exhaustive { 2000 } else { k };
        let pts = points(&muts, k, c.sel);
        let mut lossy = 0;
        let mut explored = 0;
        for (i, at) in pts.iter().enumerate() {
            let torn = (c.sel >> (i % 60)) & 1 == 1;
            let mut r = rt.block_on(origin.fork(ctx, &from))?;
            if c.warm {
                rt.block_on(r.warm())?;
            }
            let (done, f, _panic, out, mut crash) = drive(&mut r, &c.ops, Plan::Crash { at: *at, torn }, ctx);
            let hit = match &out.hit {
                Some(h) => describe(h),
                None => {
                    // the order of accesses differed
                    if let Some(f) = f {
                        return Err(f.ctx("without a crash"));
                    }
                    continue;
                }
            };
            ctx.count("crash points", 1);
            if let Some(f) = &f {
                if !f.sig.starts_with("io:") && f.sig != "panic" && f.sig != "blocked" {
                    // not a consequence of the machine having stopped
                    return Err(f.clone().ctx(format!("while crashing at {}", hit)));
                }
            }
            explored += 1;
            let opn = c.ops.get(done).map(|o| format!("{:?}", o)).unwrap_or_default();
            let d = r.dir.clone();
            let mut variants: Vec<(String, PathBuf)> = vec![];
            let lost = ctx.new_dir();
            let differs = crash.materialize(&lost, None);
            if differs {
                lossy += 1;
                variants.push(("all unflushed data lost".into(), lost));
                let mix = ctx.new_dir();
                crash.materialize(&mix, Some(c.sel ^ (*at as u64).wrapping_mul(77)));
                variants.push(("some unflushed data lost".into(), mix));
            }
            variants.push(("process killed".into(), d));
            for (how, dir) in variants {
                let what = format!("{}, crashed at {} during {}", how, hit, opn);
                ctx.count("crash states", 1);
                let run = std::panic::catch_unwind(AssertUnwindSafe(|| {
                    rt.block_on(limited(async {
                        let mut n = r.reopened(dir.clone()).await.map_err(|f| f.ctx("reopening"))?;
                        n.resolve_pending().await?;
                        n.verify("after the crash", ctx).await?;
                        // the interrupted operation again
                        if let Some(op) = c.ops.get(done) {
                            n.apply(op, ctx).await.map_err(|f| Fail::new(f.sig, f.msg).ctx("repeating the interrupted operation"))?;
                        }
                        n.new_work("after the crash", ctx).await?;
                        n.verify("after new work", ctx).await?;
                        let mut n = n.reopened(dir.clone()).await?;
                        n.verify("after reopening again", ctx).await?;
                        Ok(())
                    }))
                }));
                match run {
                    Ok(Ok(())) => {}
                    Ok(Err(f)) => {
                        let p = take_panic().map(|p| format!("; panic: {}", p)).unwrap_or_default();
                        return Err(f.ctx(format!("{}{}", what, p)));
                    }
                    Err(_) => return bad("panic", format!("panic {:?} after: {}", take_panic(), what)),
                }
                let _ = std::fs::remove_dir_all(&dir);
            }
        }
        ctx.count("crash points with unflushed data", lossy);
        ctx.nontrivial = explored >= 4 && lossy >= 1;
        ctx.label(match fkind(c.kind) {
            Kind::Dir => "kind:directory",
            Kind::RawArchive => "kind:raw archive",
            _ => "kind:cached archive",
        });
        Ok(())
    }
}

// ---------------------------------------------------------------- C14

pub struct C14;

impl Prop for C14 {
    type Case = FCase;
    const ID: &'static str = "C14";
    const RULE: &'static str = "distinct cases in which at least six injected failures hit an operation, at least one of which made it return an error";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 600 } else { 5000 }
    }
    fn max_shrink() -> u32 {
        300
    }
    fn assumptions() -> Vec<String> {
        vec![
            "an access that fails has no effect (except that a short transfer moves part of the data)".into(),
            "giving up a file lock and closing a file do not fail".into(),
        ]
    }
    fn strategy(t: Tier) -> BoxedStrategy<FCase> {
        ops_strategy(t, true)
    }
    fn run(c: &FCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let origin = rt.block_on(Rig::setup(c, ctx))?;
        let from = origin.dir.clone();
        let mut a = rt.block_on(origin.fork(ctx, &from))?;
        if c.warm {
            rt.block_on(a.warm())?;
        }
        let (_, f, p, out, _) = drive(&mut a, &c.ops, Plan::Count, ctx);
        if let Some(f) = f {
            return Err(f.ctx(p.unwrap_or_default()));
        }
        let log: Vec<&Op> = out.log.iter().collect();
        ctx.count("storage accesses", log.len() as u64);
        let k = if ctx.tier == Tier::Thorough { 100 } else { 14 };
        let k = if ctx.exhaustive { 4000 } else { k };
        let pts = points(&log, k, c.sel);
        let mut hits = 0;
        let mut errors = 0;
        for (i, at) in pts.iter().enumerate() {
            let z = (c.sel >> (i % 50)) as usize;
            let plans: Vec<(&str, Plan)> = {
                let errno = match log[*at].class {
                    Class::Write | Class::Mkdir | Class::OpenWrite | Class::Rename | Class::Link | Class::Truncate => [libc::EIO, libc::ENOSPC][z % 2],
                    Class::OpenRead | Class::OpenDir | Class::Stat => [libc::EIO, libc::EMFILE, libc::EACCES][z % 3],
                    Class::Lock => libc::ENOLCK,
                    _ => libc::EIO,
                };
                let mut v = vec![("failing", Plan::Fault { at: *at, width: if z % 4 == 3 { 3 } else { 1 }, errno })];
                if matches!(log[*at].class, Class::Read | Class::Write) && log[*at].len > 1 {
                    v.push(("short", Plan::Short { at: *at }));
                }
                v
            };
            for (how, plan) in plans {
                let mut r = rt.block_on(origin.fork(ctx, &from))?;
                if c.warm {
                    rt.block_on(r.warm())?;
                }
                let (done, f, panic, out, _) = drive(&mut r, &c.ops, plan, ctx);
                let hit = match &out.hit {
                    Some(h) => describe(h),
                    None => {
                        if let Some(f) = f {
                            return Err(f.ctx("without a failure"));
                        }
                        continue;
                    }
                };
                hits += 1;
                ctx.count("injected failures", 1);
                if out.hit.as_ref().map(|h| h.path.contains("idmap")).unwrap_or(false) {
                    ctx.count("injected failures on id maps", 1);
                }
                let opix = if f.is_some() { done } else { done - 1 };
                let what = format!("{} {} during {:?} ({:?})", how, hit, c.ops[opix], plan);
                if let Some(p) = panic {
                    ctx.report(Fail::new("panic", format!("panic: {} [{}]", p, what)))?;
                    continue;
                }
                if let Some(f) = &f {
                    if !f.sig.starts_with("io:") {
                        ctx.report(f.clone().ctx(&what))?;
                        continue;
                    }
                    if how == "short" {
                        ctx.report(Fail::new("short-transfer", format!("a short transfer makes the operation fail: {} [{}]", f.msg, what)))?;
                        continue;
                    }
                    errors += 1;
                    ctx.count("operations that returned an error", 1);
                }
                let run = std::panic::catch_unwind(AssertUnwindSafe(|| {
                    rt.block_on(limited(async {
                        r.resolve_pending().await?;
                        // everything from before, through the same store
                        r.verify("after the failure", ctx).await?;
                        // the same operation again, and the others
                        for op in &c.ops[done..] {
                            r.apply(op, ctx).await.map_err(|x| x.ctx(format!("{:?} after the failure was over", op)))?;
                        }
                        r.new_work("after the failure", ctx).await?;
                        let mut n = r.reopened(r.dir.clone()).await?;
                        n.verify("after reopening", ctx).await?;
                        Ok(())
                    }))
                }));
                match run {
                    Ok(Ok(())) => {}
                    Ok(Err(f)) => {
                        let p = take_panic().map(|p| format!("; panic: {}", p)).unwrap_or_default();
                        ctx.report(f.ctx(format!("{}{}", what, p)))?;
                    }
                    Err(_) => ctx.report(Fail::new("panic", format!("panic {:?} after: {}", take_panic(), what)))?,
                }
                let _ = std::fs::remove_dir_all(&r.dir);
            }
        }
        ctx.nontrivial = hits >= 6 && errors >= 1;
        ctx.label(match fkind(c.kind) {
            Kind::Dir => "kind:directory",
            Kind::RawArchive => "kind:raw archive",
            _ => "kind:cached archive",
        });
        Ok(())
    }
}

#[allow(unused)]
fn unused(_: ValueTriple) {}
