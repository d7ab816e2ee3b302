//! C12: concurrent label operations are linearizable.
use crate::conc;
use crate::props::labels::{ancestor_or_self, build_tree, label_name, AnyLabels, LV};
use crate::runner::*;
use crate::world::*;
use async_trait::async_trait;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use terminus_store::storage::directory::{CachedDirectoryLabelStore, DirectoryLabelStore};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{CachedLayerStore, Label, LabelStore, LockingHashMapLayerCache};
use terminus_store::layer::Layer;
use terminus_store::store::{NamedGraph, Store, StoreLayer};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum COp {
    Create(u8),
    Delete(u8),
    HandleDelete(u8),
    Open(u8),
    Head(u8),
    SetHead(u8, u8),
    Force(u8, u8),
    /// with the version this client saw last, plus an offset
    ForceVersion(u8, u8, i8),
    Get(u8),
    /// compare-and-set with the value this client saw last
    Cas(u8, Option<u8>),
    Labels,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    /// directory labels, interleaved at system calls; whether each client opens the path itself
    Calls { shared: bool },
    /// tasks over one store, interleaved at awaits
    Tasks { store: u8 },
    /// real threads over memory labels
    Threads { rounds: u16 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct RCase {
    pub mode: Mode,
    pub style: u8,
    pub tree: Vec<u8>,
    /// initial labels
    pub labels: Vec<(u8, Option<u8>)>,
    pub clients: Vec<Vec<COp>>,
    pub schedule: Vec<(u8, u8)>,
    /// with tasks: clients abandoned after so many polls
    #[serde(default)]
    pub abandon: Vec<(u8, u8)>,
}

/// Outcome of an operation, in terms of the model.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Done,
    Bool(bool),
    Value(Option<LV>),
    All(BTreeMap<String, LV>),
    /// refused: no such label, or it exists already
    Refused(String),
    /// abandoned: may have taken effect or not
    Unknown,
}

#[derive(Clone, Debug)]
enum Ask {
    Create,
    Delete,
    /// delete that does not tell whether there was something
    DeleteQuiet,
    Exists(bool),
    Read(Option<LV>),
    Set(usize),
    Force(usize),
    ForceVersion(usize, u64),
    Cas(LV, Option<usize>),
}

/// one operation on one label
#[derive(Clone, Debug)]
struct Ev {
    client: usize,
    name: usize,
    ask: Ask,
    out: Out,
    t0: u64,
    t1: u64,
}

fn err_out(e: io::Error) -> R<Out> {
    match e.kind() {
        io::ErrorKind::NotFound | io::ErrorKind::InvalidInput | io::ErrorKind::AlreadyExists => Ok(Out::Refused(e.to_string())),
        k => Err(Fail::new("label:error", format!("unexpected error {:?}: {}", k, e))),
    }
}

/// What one client does and sees.
struct Client {
    id: usize,
    store: Store,
    lstore: Arc<dyn LabelStore>,
    layers: Arc<Vec<StoreLayer>>,
    names: Arc<Vec<String>>,
    /// other labels in the store begin so
    others: Arc<Vec<String>>,
    handles: Vec<NamedGraph>,
    seen: Mutex<HashMap<usize, LV>>,
    log: Arc<Mutex<Vec<Ev>>>,
    /// the change that is going on
    going: Mutex<Option<Ev>>,
    failed: Arc<Mutex<Option<Fail>>>,
}

impl Client {
    fn lv(&self, l: &Label) -> R<LV> {
        let h = match l.layer {
            None => None,
            Some(n) => match self.layers.iter().position(|x| x.name() == n) {
                Some(i) => Some(i),
                None => return Err(Fail::new("label:malformed", format!("label {:?} points to a layer nobody made it point to: {}", l.name, terminus_store::storage::name_to_string(n)))),
            },
        };
        Ok((h, l.version))
    }
    fn label(&self, name: usize, v: LV) -> Label {
        Label { name: self.names[name].clone(), layer: v.0.map(|i| self.layers[i].name()), version: v.1 }
    }
    async fn run(&self, op: &COp) {
        let r = self.run2(op).await;
        *self.going.lock().unwrap() = None;
        if let Err(f) = r {
            let mut g = self.failed.lock().unwrap();
            if g.is_none() {
                *g = Some(f.ctx(format!("client {}: {:?}", self.id, op)));
            }
        }
    }
    async fn run2(&self, op: &COp) -> R<()> {
        let ln = self.layers.len();
        let nn = self.names.len();
        let n = |x: &u8| *x as usize % nn;
        let l = |x: &u8| *x as usize % ln;
        let t0 = conc::now();
        let going = match op {
            COp::Create(x) => Some((n(x), Ask::Create)),
            COp::Delete(x) | COp::HandleDelete(x) => Some((n(x), Ask::DeleteQuiet)),
            COp::SetHead(x, y) => Some((n(x), Ask::Set(l(y)))),
            COp::Force(x, y) => Some((n(x), Ask::Force(l(y)))),
            COp::ForceVersion(x, y, d) => {
                let v = self.seen.lock().unwrap().get(&n(x)).map(|s| s.1).unwrap_or(0) as i64 + *d as i64;
                Some((n(x), Ask::ForceVersion(l(y), v.max(0) as u64)))
            }
            COp::Cas(x, y) => {
                let v = self.seen.lock().unwrap().get(&n(x)).cloned().unwrap_or((None, 0));
                Some((n(x), Ask::Cas(v, y.as_ref().map(l))))
            }
            _ => None,
        };
        *self.going.lock().unwrap() = going.map(|(name, ask)| Ev { client: self.id, name, ask, out: Out::Unknown, t0, t1: u64::MAX });
        let (name, ask, out): (usize, Ask, Out) = match op {
            COp::Create(x) => {
                let out = match self.store.create(&self.names[n(x)]).await {
                    Ok(_) => Out::Done,
                    Err(e) => err_out(e)?,
                };
                if out == Out::Done {
                    self.seen.lock().unwrap().insert(n(x), (None, 0));
                }
                (n(x), Ask::Create, out)
            }
            COp::Delete(x) => {
                let out = match self.store.delete(&self.names[n(x)]).await {
                    Ok(b) => Out::Bool(b),
                    Err(e) => err_out(e)?,
                };
                (n(x), Ask::Delete, out)
            }
            COp::HandleDelete(x) => {
                let out = match self.handles[n(x)].delete().await {
                    Ok(()) => Out::Done,
                    Err(e) => err_out(e)?,
                };
                (n(x), Ask::DeleteQuiet, out)
            }
            COp::Open(x) => {
                let out = match self.store.open(&self.names[n(x)]).await {
                    Ok(b) => b.is_some(),
                    Err(e) => return err_out(e).and_then(|o| Err(Fail::new("label:error", format!("open failed: {:?}", o)))),
                };
                (n(x), Ask::Exists(out), Out::Done)
            }
            COp::Head(x) => {
                let r = self.handles[n(x)].head_version().await;
                let v = match r {
                    Ok((h, v)) => {
                        let i = match h {
                            None => None,
                            Some(h) => Some(match self.layers.iter().position(|q| q.name() == h.name()) {
                                Some(i) => i,
                                None => return Err(Fail::new("label:malformed", format!("head is {}", terminus_store::storage::name_to_string(h.name())))),
                            }),
                        };
                        Some((i, v))
                    }
                    Err(e) => {
                        err_out(e)?;
                        None
                    }
                };
                if let Some(v) = v {
                    self.seen.lock().unwrap().insert(n(x), v);
                }
                (n(x), Ask::Read(v), Out::Done)
            }
            COp::Get(x) => {
                let v = match self.lstore.get_label(&self.names[n(x)]).await {
                    Ok(None) => None,
                    Ok(Some(q)) => {
                        if q.name != self.names[n(x)] {
                            return Err(Fail::new("label:malformed", format!("asked for {:?}, got {:?}", self.names[n(x)], q.name)));
                        }
                        Some(self.lv(&q)?)
                    }
                    Err(e) => return Err(Fail::new("label:error", format!("get_label failed: {:?} {}", e.kind(), e))),
                };
                if let Some(v) = v {
                    self.seen.lock().unwrap().insert(n(x), v);
                }
                (n(x), Ask::Read(v), Out::Done)
            }
            COp::SetHead(x, y) => {
                let out = match self.handles[n(x)].set_head(&self.layers[l(y)]).await {
                    Ok(b) => Out::Bool(b),
                    Err(e) => err_out(e)?,
                };
                (n(x), Ask::Set(l(y)), out)
            }
            COp::Force(x, y) => {
                let out = match self.handles[n(x)].force_set_head(&self.layers[l(y)]).await {
                    Ok(()) => Out::Done,
                    Err(e) => err_out(e)?,
                };
                (n(x), Ask::Force(l(y)), out)
            }
            COp::ForceVersion(x, y, d) => {
                let v = self.seen.lock().unwrap().get(&n(x)).map(|s| s.1).unwrap_or(0) as i64 + *d as i64;
                let v = v.max(0) as u64;
                let out = match self.handles[n(x)].force_set_head_version(&self.layers[l(y)], v).await {
                    Ok(b) => Out::Bool(b),
                    Err(e) => err_out(e)?,
                };
                if out == Out::Bool(true) {
                    self.seen.lock().unwrap().insert(n(x), (Some(l(y)), v + 1));
                }
                (n(x), Ask::ForceVersion(l(y), v), out)
            }
            COp::Cas(x, y) => {
                let v = self.seen.lock().unwrap().get(&n(x)).cloned().unwrap_or((None, 0));
                let q = self.label(n(x), v);
                let y = y.as_ref().map(l);
                let r = match y {
                    Some(i) => self.lstore.set_label(&q, self.layers[i].name()).await,
                    None => self.lstore.clear_label(&q).await,
                };
                let out = match r {
                    Ok(None) => Out::Bool(false),
                    Ok(Some(q)) => {
                        let got = self.lv(&q)?;
                        if got != (y, v.1 + 1) {
                            return Err(Fail::new("label:set-result", format!("setting {:?} to {:?} returned {:?}", v, y, got)));
                        }
                        self.seen.lock().unwrap().insert(n(x), got);
                        Out::Bool(true)
                    }
                    Err(e) => err_out(e)?,
                };
                (n(x), Ask::Cas(v, y), out)
            }
            COp::Labels => {
                let r = match self.lstore.labels().await {
                    Ok(r) => r,
                    Err(e) => return Err(Fail::new("label:error", format!("labels() failed: {:?} {}", e.kind(), e))),
                };
                let t1 = conc::now();
                let mut m = BTreeMap::new();
                for q in r {
                    if m.insert(q.name.clone(), self.lv(&q)?).is_some() {
                        return Err(Fail::new("label:listed-twice", format!("labels() lists {:?} twice", q.name)));
                    }
                }
                let mut g = self.log.lock().unwrap();
                for (i, name) in self.names.iter().enumerate() {
                    g.push(Ev { client: self.id, name: i, ask: Ask::Read(m.remove(name)), out: Out::Done, t0, t1 });
                }
                if let Some(k) = m.into_keys().find(|k| !self.others.iter().any(|s| k.starts_with(s.as_str()))) {
                    return Err(Fail::new("label:phantom", format!("labels() lists {:?}, which nobody created", k)));
                }
                return Ok(());
            }
        };
        let t1 = conc::now();
        self.log.lock().unwrap().push(Ev { client: self.id, name, ask, out, t0, t1 });
        Ok(())
    }
}

/// The state after the operation, if its outcome agrees with the state before. `lax`: a move that
/// overlapped a successful change of the label may be refused.
fn apply(parents: &[Option<usize>], s: Option<LV>, e: &Ev, lax: bool) -> Option<Option<LV>> {
    if e.out == Out::Unknown {
        // it took effect
        let ok = match e.ask {
            Ask::Create | Ask::DeleteQuiet | Ask::Force(_) => Out::Done,
            _ => Out::Bool(true),
        };
        return apply(parents, s, &Ev { out: ok, ..e.clone() }, lax);
    }
    match (&e.ask, &e.out, s) {
        (Ask::Create, Out::Done, None) => Some(Some((None, 0))),
        (Ask::Create, Out::Refused(_), Some(_)) => Some(s),
        (Ask::Delete, Out::Bool(true), Some(_)) => Some(None),
        (Ask::Delete, Out::Bool(false), None) => Some(None),
        (Ask::DeleteQuiet, Out::Done, _) => Some(None),
        (Ask::DeleteQuiet, Out::Refused(_), None) => Some(None),
        (Ask::Exists(b), _, _) if *b == s.is_some() => Some(s),
        (Ask::Read(v), _, _) if *v == s => Some(s),
        (Ask::Set(l), Out::Bool(ok), Some((h, v))) => {
            let allowed = h.map(|h| ancestor_or_self(parents, *l, h)).unwrap_or(true);
            match (ok, allowed) {
                (true, true) => Some(Some((Some(*l), v + 1))),
                (false, false) => Some(s),
                (false, true) if lax => Some(s),
                _ => None,
            }
        }
        (Ask::Set(_), Out::Bool(false), None) if lax => Some(s),
        (Ask::Set(_) | Ask::Force(_) | Ask::ForceVersion(..) | Ask::Cas(..), Out::Refused(_), None) => Some(s),
        (Ask::Force(l), Out::Done, Some((_, v))) => Some(Some((Some(*l), v + 1))),
        (Ask::ForceVersion(l, w), Out::Bool(true), Some((_, v))) if *w == v => Some(Some((Some(*l), v + 1))),
        (Ask::ForceVersion(_, w), Out::Bool(false), Some((_, v))) if *w != v => Some(s),
        (Ask::Cas(w, l), Out::Bool(true), Some(v)) if *w == v => Some(Some((*l, v.1 + 1))),
        (Ask::Cas(w, _), Out::Bool(false), Some(v)) if *w != v => Some(s),
        _ => None,
    }
}

fn changes(e: &Ev) -> bool {
    match (&e.ask, &e.out) {
        (Ask::Exists(_) | Ask::Read(_), _) => false,
        (_, Out::Done) | (_, Out::Bool(true)) | (_, Out::Unknown) => true,
        _ => false,
    }
}

/// Is there an order of these operations on one label that explains all outcomes and the end?
fn linearizable(parents: &[Option<usize>], start: Option<LV>, end: Option<LV>, evs: &[Ev]) -> bool {
    let n = evs.len();
    assert!(n <= 60, "history too long");
    let lax: Vec<bool> = evs
        .iter()
        .enumerate()
        .map(|(i, e)| matches!((&e.ask, &e.out), (Ask::Set(_), Out::Bool(false))) && evs.iter().enumerate().any(|(j, o)| j != i && changes(o) && o.t0 < e.t1 && e.t0 < o.t1))
        .collect();
    let mut seen: HashSet<(u64, Option<LV>)> = HashSet::new();
    let mut stack = vec![(0u64, start)];
    while let Some((mask, s)) = stack.pop() {
        if (0..n).all(|i| mask & (1 << i) != 0 || evs[i].out == Out::Unknown) && s == end {
            return true;
        }
        if mask.count_ones() as usize == n {
            continue;
        }
        if !seen.insert((mask, s)) {
            continue;
        }
        // an operation may go next if none of the remaining ones ended before it began
        let first_end = (0..n).filter(|i| mask & (1 << i) == 0).map(|i| evs[i].t1).min().unwrap();
        for i in 0..n {
            if mask & (1 << i) == 0 && evs[i].t0 <= first_end {
                if let Some(s2) = apply(parents, s, &evs[i], lax[i]) {
                    stack.push((mask | (1 << i), s2));
                }
            }
        }
    }
    false
}

/// A label store whose calls can be interleaved at their start and end.
struct Pausing(Arc<dyn LabelStore>);
#[async_trait]
impl LabelStore for Pausing {
    async fn labels(&self) -> io::Result<Vec<Label>> {
        conc::pause().await;
        self.0.labels().await
    }
    async fn create_label(&self, name: &str) -> io::Result<Label> {
        conc::pause().await;
        self.0.create_label(name).await
    }
    async fn get_label(&self, name: &str) -> io::Result<Option<Label>> {
        conc::pause().await;
        self.0.get_label(name).await
    }
    async fn set_label_option(&self, label: &Label, layer: Option<[u32; 5]>) -> io::Result<Option<Label>> {
        conc::pause().await;
        self.0.set_label_option(label, layer).await
    }
    async fn delete_label(&self, name: &str) -> io::Result<bool> {
        conc::pause().await;
        self.0.delete_label(name).await
    }
}

pub struct C12;

struct Setup {
    names: Arc<Vec<String>>,
    others: Arc<Vec<String>>,
    layers: Arc<Vec<StoreLayer>>,
    parents: Vec<Option<usize>>,
    mem: MemoryLayerStore,
}

fn names(c: &RCase) -> Arc<Vec<String>> {
    Arc::new((0..2).map(|i| label_name(c.style, i)).collect())
}

async fn setup(c: &RCase) -> R<Setup> {
    let mem = MemoryLayerStore::new();
    let store = Store::new(MemoryLabelStore::new(), CachedLayerStore::new(mem.clone(), LockingHashMapLayerCache::new()));
    let (layers, parents) = build_tree(&store, &c.tree).await?;
    Ok(Setup { names: names(c), others: Arc::new(vec![]), layers: Arc::new(layers), parents, mem })
}

/// handles for all names, then the initial labels
async fn prepare(c: &RCase, s: &Setup, store: &Store) -> R<(Vec<NamedGraph>, Vec<Option<LV>>)> {
    let mut handles = vec![];
    let mut start = vec![None; s.names.len()];
    for (i, n) in s.names.iter().enumerate() {
        handles.push(io("create", store.create(n).await)?);
        match c.labels.iter().find(|(k, _)| *k as usize % s.names.len() == i) {
            None => {
                if !io("delete", store.delete(n).await)? {
                    return Err(Fail::new("label:delete", "deleting a new label found nothing"));
                }
            }
            Some((_, None)) => start[i] = Some((None, 0)),
            Some((_, Some(l))) => {
                let l = *l as usize % s.layers.len();
                io("force_set_head", handles[i].force_set_head(&s.layers[l]).await)?;
                start[i] = Some((Some(l), 1));
            }
        }
    }
    Ok((handles, start))
}

async fn ending(names: &[String], layers: &[StoreLayer], l: &dyn LabelStore) -> R<Vec<Option<LV>>> {
    let mut v = vec![];
    for n in names {
        let q = io("get_label after the end", l.get_label(n).await)?;
        v.push(match q {
            None => None,
            Some(q) => Some((
                match q.layer {
                    None => None,
                    Some(x) => match layers.iter().position(|y| y.name() == x) {
                        Some(i) => Some(i),
                        None => return Err(Fail::new("label:malformed", format!("in the end {:?} points to an unknown layer", n))),
                    },
                },
                q.version,
            )),
        });
    }
    Ok(v)
}

fn judge(s: &Setup, start: &[Option<LV>], end: &[Option<LV>], log: &[Ev]) -> R<()> {
    for i in 0..s.names.len() {
        let evs: Vec<Ev> = log.iter().filter(|e| e.name == i).cloned().collect();
        if !linearizable(&s.parents, start[i], end[i], &evs) {
            let mut evs = evs;
            evs.sort_by_key(|e| e.t0);
            let h: Vec<String> = evs.iter().map(|e| format!("[{}..{}] client {} {:?} -> {:?}", e.t0, e.t1, e.client, e.ask, e.out)).collect();
            return Err(Fail::new(
                "label:not-linearizable",
                format!("no order explains the outcomes on label {:?} (layers have parents {:?}): from {:?}: {}; in the end {:?}", s.names[i], s.parents, start[i], h.join("; "), end[i]),
            ));
        }
    }
    Ok(())
}

fn overlap(log: &[Ev]) -> bool {
    log.iter().any(|a| changes(a) && log.iter().any(|b| b.client != a.client && b.name == a.name && b.t0 < a.t1 && a.t0 < b.t1))
}

impl C12 {
    fn make(c: &RCase, i: usize, s: &Setup, store: Store, lstore: Arc<dyn LabelStore>, handles: Vec<NamedGraph>, log: &Arc<Mutex<Vec<Ev>>>, failed: &Arc<Mutex<Option<Fail>>>, start: &[Option<LV>]) -> Client {
        let _ = c;
        Client {
            id: i,
            store,
            lstore,
            layers: s.layers.clone(),
            names: s.names.clone(),
            others: s.others.clone(),
            handles,
            seen: Mutex::new(start.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i, v))).collect()),
            log: log.clone(),
            going: Mutex::new(None),
            failed: failed.clone(),
        }
    }
    fn calls(c: &RCase, shared: bool, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let dir = ctx.new_dir();
        let s = rt.block_on(setup(c))?;
        let first = DirectoryLabelStore::new(&dir);
        let layers = || CachedLayerStore::new(s.mem.clone(), LockingHashMapLayerCache::new());
        let (_, start) = rt.block_on(prepare(c, &s, &Store::new(first.clone(), layers())))?;
        let log = Arc::new(Mutex::new(vec![]));
        let failed = Arc::new(Mutex::new(None));
        let one = layers();
        let shared_store = Store::new(first.clone(), one);
        let mut scripts = vec![];
        for (i, ops) in c.clients.iter().enumerate() {
            let l = if shared { first.clone() } else { DirectoryLabelStore::new(&dir) };
            let store = if shared { shared_store.clone() } else { Store::new(l.clone(), layers()) };
            // handles stay valid when their label goes and comes back
            let handles = rt.block_on(async {
                let mut v = vec![];
                for n in s.names.iter() {
                    match io("open", store.open(n).await)? {
                        Some(h) => v.push(h),
                        None => {
                            v.push(io("create", store.create(n).await)?);
                            io("delete", store.delete(n).await)?;
                        }
                    }
                }
                R::Ok(v)
            })?;
            let client = Arc::new(Self::make(c, i, &s, store, Arc::new(l), handles, &log, &failed, &start));
            let script: Vec<Box<dyn FnOnce(&tokio::runtime::Runtime) + Send>> = ops
                .iter()
                .map(|op| {
                    let client = client.clone();
                    let op = op.clone();
                    Box::new(move |rt: &tokio::runtime::Runtime| rt.block_on(client.run(&op))) as Box<dyn FnOnce(&tokio::runtime::Runtime) + Send>
                })
                .collect();
            scripts.push(script);
        }
        let trace = conc::threads(&dir, scripts, &c.schedule)?;
        let switches = trace.windows(2).filter(|w| w[0].split(':').next() != w[1].split(':').next()).count();
        ctx.count("client switches at system calls", switches as u64);
        ctx.count("system calls scheduled", trace.len() as u64);
        if let Some(f) = failed.lock().unwrap().take() {
            return Err(f.ctx(format!("last accesses: {}", trace.iter().rev().take(40).rev().cloned().collect::<Vec<_>>().join(", "))));
        }
        let end = rt.block_on(ending(&s.names, &s.layers, &DirectoryLabelStore::new(&dir)))?;
        // nothing but the labels is left
        for e in std::fs::read_dir(&dir).unwrap() {
            let n = e.unwrap().file_name().to_string_lossy().into_owned();
            let base = n.strip_suffix(".label");
            if let Some(b) = base {
                if !s.names.iter().zip(&end).any(|(x, v)| x == b && v.is_some()) {
                    return Err(Fail::new("label:left-over", format!("in the end there is a file {:?}", n)));
                }
            }
        }
        let log = log.lock().unwrap().clone();
        ctx.nontrivial = overlap(&log);
        judge(&s, &start, &end, &log).map_err(|f| f.ctx(format!("accesses: {}", trace.join(", "))))
    }
    fn tasks(c: &RCase, kind: u8, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let dir = ctx.new_dir();
        rt.block_on(async {
            let s = setup(c).await?;
            let inner: Arc<dyn LabelStore> = match kind % 3 {
                0 => Arc::new(MemoryLabelStore::new()),
                1 => Arc::new(DirectoryLabelStore::new(&dir)),
                _ => Arc::new(io("open", CachedDirectoryLabelStore::open(&dir).await)?),
            };
            let l: Arc<dyn LabelStore> = Arc::new(Pausing(inner.clone()));
            let store = Store::new(AnyLabels(l.clone()), CachedLayerStore::new(s.mem.clone(), LockingHashMapLayerCache::new()));
            let (handles, start) = prepare(c, &s, &store).await?;
            let log = Arc::new(Mutex::new(vec![]));
            let failed = Arc::new(Mutex::new(None));
            let mut tasks: Vec<conc::Task> = vec![];
            let mut all = vec![];
            for (i, ops) in c.clients.iter().enumerate() {
                let client = Arc::new(Self::make(c, i, &s, store.clone(), l.clone(), handles.clone(), &log, &failed, &start));
                all.push(client.clone());
                tasks.push(Box::pin(async move {
                    for op in ops {
                        client.run(op).await;
                        conc::pause().await;
                    }
                }));
            }
            let abandon: Vec<(usize, u32)> = c.abandon.iter().map(|(t, n)| (*t as usize % c.clients.len(), *n as u32)).collect();
            let polls = conc::explore_cancel(tasks, &c.schedule, Duration::from_secs(8), &abandon).await?;
            ctx.count("polls scheduled", polls);
            let mut left = 0;
            for client in all {
                if let Some(e) = client.going.lock().unwrap().take() {
                    left += 1;
                    log.lock().unwrap().push(e);
                }
            }
            if left > 0 {
                ctx.label("a change was abandoned");
                // what it started may still be going on
                let _ = tokio::task::spawn_blocking(|| ()).await;
            }
            if let Some(f) = failed.lock().unwrap().take() {
                return Err(f);
            }
            let mut end = ending(&s.names, &s.layers, inner.as_ref()).await?;
            let log = log.lock().unwrap().clone();
            ctx.nontrivial = overlap(&log);
            judge(&s, &start, &end, &log)?;
            if kind % 3 != 0 {
                // what is on disk is the same
                let again = ending(&s.names, &s.layers, &DirectoryLabelStore::new(&dir)).await?;
                if again != end {
                    return Err(Fail::new("label:disk-differs", format!("in memory {:?}, on disk {:?}", end, again)));
                }
                end = again;
            }
            let _ = end;
            Ok(())
        })
    }
    fn stress(c: &RCase, rounds: u16, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let s = rt.block_on(setup(c))?;
        let lstore = MemoryLabelStore::new();
        let store = Store::new(lstore.clone(), CachedLayerStore::new(s.mem.clone(), LockingHashMapLayerCache::new()));
        let n = c.clients.len().min(3);
        let mut good = false;
        let barrier = Arc::new(AtomicUsize::new(0));
        // one operation of each client at a time
        let rounds = rounds as usize;
        let failed = Arc::new(Mutex::new(None));
        let mut per: Vec<(Vec<Client>, Vec<Option<LV>>, Arc<Mutex<Vec<Ev>>>, Setup)> = vec![];
        for r in 0..rounds {
            let s2 = Setup { names: Arc::new(s.names.iter().map(|n| format!("{}-{}", n, r)).collect()), others: s.names.clone(), layers: s.layers.clone(), parents: s.parents.clone(), mem: s.mem.clone() };
            let (handles, start) = rt.block_on(prepare(c, &s2, &store))?;
            let log = Arc::new(Mutex::new(vec![]));
            let clients = (0..n).map(|i| Self::make(c, i, &s2, store.clone(), Arc::new(lstore.clone()), handles.clone(), &log, &failed, &start)).collect();
            per.push((clients, start, log, s2));
        }
        let per = Arc::new(per);
        let mut joins = vec![];
        for i in 0..n {
            let per = per.clone();
            let b = barrier.clone();
            let ops = c.clients[i].clone();
            joins.push(std::thread::spawn(move || {
                for (r, p) in per.iter().enumerate() {
                    b.fetch_add(1, Ordering::SeqCst);
                    let mut spins = 0u32;
                    while b.load(Ordering::SeqCst) < (r + 1) * n {
                        spins += 1;
                        if spins > 2000 {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    for op in ops.iter().take(4) {
                        futures::executor::block_on(p.0[i].run(op));
                    }
                }
                b.fetch_add(n * 2, Ordering::SeqCst);
            }));
        }
        for j in joins {
            if j.join().is_err() {
                return Err(Fail::new("panic", format!("panic: {}", take_panic().unwrap_or_default())));
            }
        }
        if let Some(f) = failed.lock().unwrap().take() {
            return Err(f);
        }
        for (_, start, log, s2) in per.iter() {
            let log = log.lock().unwrap().clone();
            good |= overlap(&log);
            let end = rt.block_on(ending(&s2.names, &s2.layers, &lstore))?;
            judge(s2, start, &end, &log)?;
        }
        ctx.count("rounds of real threads", rounds as u64);
        ctx.nontrivial = good;
        Ok(())
    }
}

pub fn schedule(n: usize) -> impl Strategy<Value = conc::Schedule> {
    let steps = prop_oneof![6 => 0u8..3, 3 => 0u8..10, 1 => 0u8..40];
    // mostly short turns, and sometimes one that lasts for a whole operation
    let turns = prop_oneof![30 => Just(1usize), 3 => 1usize..12, 1 => 1usize..150];
    prop::collection::vec((0u8..4, steps, turns), 0..n).prop_map(|v| v.into_iter().flat_map(|(c, k, t)| std::iter::repeat((c, k)).take(t)).collect())
}

impl Prop for C12 {
    type Case = RCase;
    const ID: &'static str = "C12";
    const RULE: &'static str = "distinct cases in which a successful change of a label overlapped another client's operation on it";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 40000 } else { 600000 }
    }
    fn strategy(_t: Tier) -> BoxedStrategy<RCase> {
        let name = || prop_oneof![5 => Just(0u8), 1 => Just(1u8)];
        let lay = || 0u8..5;
        let op = prop_oneof![
            3 => name().prop_map(COp::Create),
            2 => name().prop_map(COp::Delete),
            1 => name().prop_map(COp::HandleDelete),
            1 => name().prop_map(COp::Open),
            2 => name().prop_map(COp::Head),
            5 => (name(), lay()).prop_map(|(a, b)| COp::SetHead(a, b)),
            4 => (name(), lay()).prop_map(|(a, b)| COp::Force(a, b)),
            3 => (name(), lay(), prop_oneof![5 => Just(0i8), 1 => -1i8..3]).prop_map(|(a, b, d)| COp::ForceVersion(a, b, d)),
            2 => name().prop_map(COp::Get),
            4 => (name(), prop::option::weighted(0.8, lay())).prop_map(|(a, b)| COp::Cas(a, b)),
            2 => Just(COp::Labels),
        ];
        let mode = prop_oneof![
            6 => any::<bool>().prop_map(|shared| Mode::Calls { shared }),
            4 => (0u8..3).prop_map(|store| Mode::Tasks { store }),
            1 => (20u16..200).prop_map(|rounds| Mode::Threads { rounds }),
        ];
        let client = prop::collection::vec(op, 1..4);
        let start = prop_oneof![
            2 => Just(vec![]),
            3 => Just(vec![(0u8, None)]),
            4 => (0u8..5).prop_map(|l| vec![(0u8, Some(l))]),
            1 => (0u8..5).prop_map(|l| vec![(0u8, None), (1, Some(l))]),
        ];
        let tree = prop_oneof![2 => Just(vec![0u8, 1, 2, 3, 4]), 2 => prop::collection::vec(0u8..6, 1..5)];
        let abandon = prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((0u8..3, 1u8..16), 1..3)];
        (mode, 0u8..6, tree, start, prop::collection::vec(client, 2..4), schedule(60), abandon)
            .prop_map(|(mode, style, tree, labels, clients, schedule, abandon)| RCase { mode, style, tree, labels, clients, schedule, abandon })
            .boxed()
    }
    fn run(c: &RCase, ctx: &mut Ctx) -> R<()> {
        ctx.label(match c.mode {
            Mode::Calls { shared: true } => "one directory store, interleaved at system calls",
            Mode::Calls { shared: false } => "several directory stores, interleaved at system calls",
            Mode::Tasks { store } => ["tasks, memory", "tasks, directory", "tasks, cached directory"][store as usize % 3],
            Mode::Threads { .. } => "threads, memory",
        });
        match c.mode {
            Mode::Calls { shared } => Self::calls(c, shared, ctx),
            Mode::Tasks { store } => Self::tasks(c, store, ctx),
            Mode::Threads { rounds } => Self::stress(c, rounds, ctx),
        }
    }
    fn max_shrink() -> u32 {
        600
    }
    fn assumptions() -> Vec<String> {
        vec![
            "A head move (set_head) that overlapped a successful change of the same label may be refused although it would have been allowed in every order: compare-and-set lost.".into(),
            "A listing reads each label at some moment during the listing; it is not a snapshot of all labels.".into(),
            "System calls are the steps of the directory store; each is atomic.".into(),
        ]
    }
}
