//! C17: the archive cache is transparent and bounded.
use crate::conc;
use crate::runner::*;
use async_trait::async_trait;
use bytes::Bytes;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::io::{self, ErrorKind};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::LayerFileEnum;
use terminus_store::storage::{name_to_string, PersistentLayerStore};
use tokio::io::{AsyncRead, AsyncReadExt};

type Id = [u32; 5];
const MB: usize = 1024 * 1024;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct LayerSpec {
    /// which files there are, and their sizes
    pub files: Vec<(u8, u16)>,
    /// size of the whole archive: quarters of the limit, and a bit; 0: as the files say
    pub quarters: u8,
    pub delta: i8,
    pub stored: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum AOp {
    Get(u8),
    Part(u8, u8),
    From(u8, u8, u8),
    Store(u8),
    Exists(u8),
    Size(u8),
    PartExists(u8, u8),
    PartSize(u8, u8),
    Parent(u8),
    Names,
    Rollup(u8),
    SetRollup(u8, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Round {
    pub clients: Vec<Vec<AOp>>,
    pub schedule: Vec<(u8, u8)>,
    pub abandon: Vec<(u8, u8)>,
    /// look at what is retained after this round
    pub probe: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LCase {
    /// in megabytes; 200: as much as there is
    pub limit: u8,
    pub layers: Vec<LayerSpec>,
    pub rounds: Vec<Round>,
    /// these accesses of the storage fail, in this way
    pub fails: Vec<(u16, u8)>,
    /// storage is a real directory
    pub real: bool,
}

const FILES: [LayerFileEnum; 8] = [
    LayerFileEnum::NodeDictionaryBlocks,
    LayerFileEnum::PredicateDictionaryOffsets,
    LayerFileEnum::ValueDictionaryBlocks,
    LayerFileEnum::PosSubjects,
    LayerFileEnum::NegObjects,
    LayerFileEnum::PosPredicateWaveletTreeBits,
    LayerFileEnum::NegPredicateWaveletTreeBitIndexSBlocks,
    LayerFileEnum::Parent,
];
const PARENT: usize = 7;
const KINDS: [ErrorKind; 4] = [ErrorKind::ConnectionReset, ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::ConnectionAborted];

struct Built {
    id: Id,
    files: HashMap<usize, Bytes>,
    bytes: Bytes,
}

#[derive(Default)]
struct Inner {
    layers: HashMap<Id, Bytes>,
    rollups: HashMap<Id, Id>,
    accesses: u64,
    gets: u64,
    fails: HashMap<u64, ErrorKind>,
    /// (layer, kind, operation)
    failed: Vec<(Id, ErrorKind, usize)>,
    deny: bool,
}

tokio::task_local! {
    static OP: usize;
}

/// The storage below the cache.
#[derive(Clone)]
struct Below {
    s: Arc<Mutex<Inner>>,
    real: Option<DirectoryArchiveBackend>,
}

impl Below {
    async fn access(&self, id: Id) -> io::Result<()> {
        conc::pause().await;
        let mut s = self.s.lock().unwrap();
        let n = s.accesses;
        s.accesses += 1;
        if s.deny {
            return Err(io::Error::new(ErrorKind::BrokenPipe, "denied"));
        }
        if let Some(k) = s.fails.get(&n).cloned() {
            let op = OP.try_with(|o| *o).unwrap_or(usize::MAX);
            s.failed.push((id, k, op));
            return Err(io::Error::new(k, "injected"));
        }
        Ok(())
    }
    fn find(&self, id: Id) -> io::Result<Bytes> {
        self.s.lock().unwrap().layers.get(&id).cloned().ok_or_else(|| io::Error::new(ErrorKind::NotFound, "no such layer"))
    }
}

fn no_slice() -> io::Error {
    io::Error::new(ErrorKind::NotFound, "slice not found in archive")
}

#[async_trait]
impl ArchiveBackend for Below {
    type Read = Box<dyn AsyncRead + Unpin + Send>;
    async fn get_layer_bytes(&self, id: Id) -> io::Result<Bytes> {
        self.s.lock().unwrap().gets += 1;
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.get_layer_bytes(id).await;
        }
        let r = self.find(id);
        conc::pause().await;
        r
    }
    async fn get_layer_structure_bytes(&self, id: Id, f: LayerFileEnum) -> io::Result<Option<Bytes>> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.get_layer_structure_bytes(id, f).await;
        }
        let r = self.find(id)?;
        conc::pause().await;
        Ok(Archive::parse(r).slice_for(f))
    }
    async fn store_layer_file(&self, id: Id, bytes: Bytes) -> io::Result<()> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.store_layer_file(id, bytes).await;
        }
        self.s.lock().unwrap().layers.insert(id, bytes);
        conc::pause().await;
        Ok(())
    }
    async fn read_layer_structure_bytes_from(&self, id: Id, f: LayerFileEnum, from: usize) -> io::Result<Self::Read> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return Ok(Box::new(r.read_layer_structure_bytes_from(id, f, from).await?));
        }
        let b = Archive::parse(self.find(id)?).slice_for(f).ok_or_else(no_slice)?;
        conc::pause().await;
        if from > b.len() {
            return Err(io::Error::new(ErrorKind::UnexpectedEof, "offset is beyond end of file"));
        }
        Ok(Box::new(io::Cursor::new(b.slice(from..))))
    }
}

#[async_trait]
impl ArchiveMetadataBackend for Below {
    async fn get_layer_names(&self) -> io::Result<Vec<Id>> {
        self.access([0; 5]).await?;
        if let Some(r) = &self.real {
            return r.get_layer_names().await;
        }
        Ok(self.s.lock().unwrap().layers.keys().cloned().collect())
    }
    async fn layer_exists(&self, id: Id) -> io::Result<bool> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.layer_exists(id).await;
        }
        Ok(self.find(id).is_ok())
    }
    async fn layer_size(&self, id: Id) -> io::Result<u64> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.layer_size(id).await;
        }
        Ok(self.find(id)?.len() as u64)
    }
    async fn layer_file_exists(&self, id: Id, f: LayerFileEnum) -> io::Result<bool> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.layer_file_exists(id, f).await;
        }
        Ok(self.find(id).map(|b| Archive::parse(b).slice_for(f).is_some()).unwrap_or(false))
    }
    async fn get_layer_structure_size(&self, id: Id, f: LayerFileEnum) -> io::Result<usize> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.get_layer_structure_size(id, f).await;
        }
        Archive::parse(self.find(id)?).size_of(f).ok_or_else(no_slice)
    }
    async fn get_rollup(&self, id: Id) -> io::Result<Option<Id>> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.get_rollup(id).await;
        }
        Ok(self.s.lock().unwrap().rollups.get(&id).cloned())
    }
    async fn set_rollup(&self, id: Id, rollup: Id) -> io::Result<()> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.set_rollup(id, rollup).await;
        }
        self.find(id)?;
        self.s.lock().unwrap().rollups.insert(id, rollup);
        Ok(())
    }
    async fn get_parent(&self, id: Id) -> io::Result<Option<Id>> {
        self.access(id).await?;
        if let Some(r) = &self.real {
            return r.get_parent(id).await;
        }
        Ok(Archive::parse(self.find(id)?).slice_for(LayerFileEnum::Parent).map(|_| parent_of(id)))
    }
}

fn parent_of(id: Id) -> Id {
    [id[0] + 1000, 2, 3, 4, 5]
}

fn fill(seed: u64, n: usize) -> Bytes {
    let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15) | 1;
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.extend_from_slice(&x.to_le_bytes());
    }
    v.truncate(n);
    v.into()
}

type Cache = LruArchiveBackend<Below, Below>;

#[derive(Clone, Debug)]
enum Ans {
    Unit,
    Whole(Option<Bytes>),
    Num(u64),
    Bool(bool),
    Id(Option<Id>),
    Ids(BTreeSet<Id>),
    Err(ErrorKind),
}

fn brief(a: &Ans) -> String {
    match a {
        Ans::Whole(Some(b)) => format!("{} bytes", b.len()),
        a => format!("{:?}", a),
    }
}

struct Event {
    op: AOp,
    t0: u64,
    t1: u64,
    ans: Option<Ans>,
}

fn at_offset(len: usize, o: u8) -> usize {
    match o {
        0..=3 => 0,
        4 => len,
        5 => len + 1,
        6 => len + 4000,
        7 => len.saturating_sub(1),
        o => len * (o as usize - 8) / 248,
    }
}

pub struct C17;

impl C17 {
    async fn build(c: &LCase) -> R<Vec<Built>> {
        let mut v = vec![];
        for (i, l) in c.layers.iter().enumerate() {
            let id: Id = [i as u32 + 1, 77, 0, 0, i as u32];
            let mut files: HashMap<usize, Bytes> = HashMap::new();
            for (k, n) in l.files.iter() {
                let k = *k as usize % FILES.len();
                let b = if k == PARENT { Bytes::from(format!("{}\n", name_to_string(parent_of(id)))) } else { fill((i * 100 + k) as u64, *n as usize) };
                files.insert(k, b);
            }
            if files.is_empty() {
                files.insert(0, fill(i as u64, 10));
            }
            let mut bytes = Self::pack(id, &files).await?;
            if l.quarters > 0 {
                let unit = MB / 4 * c.limit.clamp(1, 2) as usize;
                let want = (unit * l.quarters as usize) as i64 + l.delta as i64;
                // the size of the offsets depends on the sizes
                for _ in 0..3 {
                    let d = want - bytes.len() as i64;
                    if d == 0 {
                        break;
                    }
                    let k = *files.keys().find(|k| **k != PARENT).unwrap_or(&0);
                    let n = (files.get(&k).map(|b| b.len()).unwrap_or(0) as i64 + d).max(0) as usize;
                    files.insert(k, fill((i * 100 + k) as u64, n));
                    bytes = Self::pack(id, &files).await?;
                }
            }
            v.push(Built { id, files, bytes });
        }
        Ok(v)
    }
    async fn pack(id: Id, files: &HashMap<usize, Bytes>) -> R<Bytes> {
        let b = Below { s: Default::default(), real: None };
        let st = ArchiveLayerStore::new(b.clone(), b.clone());
        let go = async {
            st.create_named_directory(id).await?;
            for (k, d) in files {
                st.write_bytes(id, FILES[*k], d.clone());
            }
            st.finalize(id).await
        };
        go.await.map_err(|e| Fail::new("cache:setup", format!("could not build an archive: {}", e)))?;
        b.find(id).map_err(|e| Fail::new("cache:setup", format!("finalize stored nothing: {}", e)))
    }
    async fn one(cache: &Cache, ls: &[Built], op: &AOp) -> Ans {
        let n = |l: &u8| *l as usize % ls.len();
        let id = |l: &u8| ls[n(l)].id;
        let f = |f: &u8| FILES[*f as usize % FILES.len()];
        fn e<T>(r: io::Result<T>, f: impl FnOnce(T) -> Ans) -> Ans {
            match r {
                Ok(x) => f(x),
                Err(e) => Ans::Err(e.kind()),
            }
        }
        match op {
            AOp::Get(l) => e(cache.get_layer_bytes(id(l)).await, |b| Ans::Whole(Some(b))),
            AOp::Part(l, k) => e(cache.get_layer_structure_bytes(id(l), f(k)).await, Ans::Whole),
            AOp::From(l, k, o) => {
                let len = ls[n(l)].files.get(&(*k as usize % FILES.len())).map(|b| b.len()).unwrap_or(5);
                match cache.read_layer_structure_bytes_from(id(l), f(k), at_offset(len, *o)).await {
                    Ok(mut r) => {
                        let mut v = vec![];
                        e(r.read_to_end(&mut v).await, |_| Ans::Whole(Some(v.into())))
                    }
                    Err(e) => Ans::Err(e.kind()),
                }
            }
            AOp::Store(l) => e(cache.store_layer_file(id(l), ls[n(l)].bytes.clone()).await, |_| Ans::Unit),
            AOp::Exists(l) => e(cache.layer_exists(id(l)).await, Ans::Bool),
            AOp::Size(l) => e(cache.layer_size(id(l)).await, Ans::Num),
            AOp::PartExists(l, k) => e(cache.layer_file_exists(id(l), f(k)).await, Ans::Bool),
            AOp::PartSize(l, k) => e(cache.get_layer_structure_size(id(l), f(k)).await, |n| Ans::Num(n as u64)),
            AOp::Parent(l) => e(cache.get_parent(id(l)).await, Ans::Id),
            AOp::Names => e(cache.get_layer_names().await, |v| Ans::Ids(v.into_iter().collect())),
            AOp::Rollup(l) => e(cache.get_rollup(id(l)).await, Ans::Id),
            AOp::SetRollup(l, r) => e(cache.set_rollup(id(l), id(r)).await, |_| Ans::Unit),
        }
    }
    fn layer(op: &AOp) -> Option<u8> {
        match op {
            AOp::Get(l) | AOp::Part(l, _) | AOp::From(l, _, _) | AOp::Store(l) | AOp::Exists(l) | AOp::Size(l) | AOp::PartExists(l, _) | AOp::PartSize(l, _) | AOp::Parent(l) | AOp::Rollup(l) | AOp::SetRollup(l, _) => Some(*l),
            AOp::Names => None,
        }
    }
    /// does the answer fit, if the layer is there (or not)?
    fn fits(b: &Built, op: &AOp, there: bool, a: &Ans) -> bool {
        let file = |k: &u8| b.files.get(&(*k as usize % FILES.len()));
        let missing = matches!(a, Ans::Err(ErrorKind::NotFound));
        match op {
            AOp::Get(_) if there => matches!(a, Ans::Whole(Some(x)) if *x == b.bytes),
            AOp::Part(_, k) if there => matches!(a, Ans::Whole(x) if x.as_ref() == file(k)),
            AOp::From(_, k, o) if there => match file(k) {
                None => missing,
                Some(d) => {
                    let o = at_offset(d.len(), *o);
                    if o > d.len() {
                        matches!(a, Ans::Err(ErrorKind::UnexpectedEof))
                    } else {
                        matches!(a, Ans::Whole(Some(x)) if *x == d.slice(o..))
                    }
                }
            },
            AOp::Exists(_) => matches!(a, Ans::Bool(x) if *x == there),
            AOp::Size(_) if there => matches!(a, Ans::Num(n) if *n == b.bytes.len() as u64),
            AOp::PartExists(_, k) => matches!(a, Ans::Bool(x) if *x == (there && file(k).is_some())),
            AOp::PartSize(_, k) if there => match file(k) {
                None => missing,
                Some(d) => matches!(a, Ans::Num(n) if *n == d.len() as u64),
            },
            AOp::Parent(_) if there => matches!(a, Ans::Id(x) if *x == b.files.get(&PARENT).map(|_| parent_of(b.id))),
            _ => missing,
        }
    }
    fn judge(c: &LCase, ls: &[Built], events: &[Event], failed: &[(Id, ErrorKind, usize)]) -> R<()> {
        let n = |l: &u8| *l as usize % ls.len();
        for e in events.iter() {
            let a = match &e.ans {
                Some(a) => a,
                None => continue,
            };
            let explain = |what: &str| Err(Fail::new("cache:answer", format!("{:?} -> {}: {} (limit {} MB, layer of {} bytes)", e.op, brief(a), what, c.limit, Self::layer(&e.op).map(|l| ls[n(&l)].bytes.len()).unwrap_or(0))));
            // which layers may, and must, be there?
            let may = |l: usize| c.layers[l].stored || events.iter().any(|s| matches!(&s.op, AOp::Store(x) if n(x) == l) && s.t0 <= e.t1);
            let must = |l: usize| c.layers[l].stored || events.iter().any(|s| matches!(&s.op, AOp::Store(x) if n(x) == l) && matches!(s.ans, Some(Ans::Unit)) && s.t1 < e.t0);
            if let Ans::Err(k) = a {
                if KINDS.contains(k) {
                    let l = Self::layer(&e.op).map(|l| ls[n(&l)].id).unwrap_or([0; 5]);
                    if !failed.iter().any(|(i, fk, op)| *i == l && fk == k && events.get(*op).map(|o| o.t0 <= e.t1 && e.t0 <= o.t1).unwrap_or(true)) {
                        return explain("nothing failed like that");
                    }
                    continue;
                }
            }
            match &e.op {
                AOp::Store(_) => {
                    if !matches!(a, Ans::Unit) {
                        return explain("storing should have worked");
                    }
                }
                AOp::SetRollup(l, _) => match a {
                    Ans::Unit if may(n(l)) => {}
                    Ans::Err(ErrorKind::NotFound) if !must(n(l)) => {}
                    _ => return explain("setting a rollup"),
                },
                AOp::Rollup(l) => match a {
                    Ans::Id(x) => {
                        let candidates: Vec<&Event> = events.iter().filter(|s| matches!(&s.op, AOp::SetRollup(x, _) if n(x) == n(l)) && s.t0 <= e.t1).collect();
                        let sure = candidates.iter().any(|s| matches!(s.ans, Some(Ans::Unit)) && s.t1 < e.t0);
                        let ok = match x {
                            None => !sure,
                            Some(r) => candidates.iter().any(|s| matches!(&s.op, AOp::SetRollup(_, q) if ls[n(q)].id == *r)),
                        };
                        if !ok {
                            return explain("wrong rollup");
                        }
                    }
                    _ => return explain("a rollup lookup"),
                },
                AOp::Names => match a {
                    Ans::Ids(s) => {
                        for (i, b) in ls.iter().enumerate() {
                            if (s.contains(&b.id) && !may(i)) || (!s.contains(&b.id) && must(i)) {
                                return explain(&format!("layer {} in the list", i));
                            }
                        }
                    }
                    _ => return explain("a list"),
                },
                op => {
                    let l = n(&Self::layer(op).unwrap());
                    let b = &ls[l];
                    if !((may(l) && Self::fits(b, op, true, a)) || (!must(l) && Self::fits(b, op, false, a))) {
                        return explain(&format!("the layer {}", if must(l) { "is there" } else if may(l) { "may be there" } else { "is not there" }));
                    }
                }
            }
        }
        Ok(())
    }
    /// What the cache holds: what can be had although the storage fails.
    async fn probe(c: &LCase, cache: &Cache, below: &Below, ls: &[Built]) -> R<usize> {
        below.s.lock().unwrap().deny = true;
        let mut held = 0usize;
        let mut which = vec![];
        for (i, b) in ls.iter().enumerate() {
            match tokio::time::timeout(Duration::from_secs(8), cache.get_layer_bytes(b.id)).await {
                Err(_) => return Err(Fail::new("hang", format!("after all is done, reading layer {} waits forever", i))),
                Ok(Ok(x)) => {
                    if x != b.bytes {
                        return Err(Fail::new("cache:answer", format!("the cache holds something else for layer {}", i)));
                    }
                    held += x.len();
                    which.push(i);
                }
                Ok(Err(e)) if e.kind() == ErrorKind::BrokenPipe => {}
                Ok(Err(e)) => return Err(Fail::new("cache:answer", format!("reading layer {} failed with {:?}, but storage says BrokenPipe", i, e.kind()))),
            }
        }
        below.s.lock().unwrap().deny = false;
        let limit = if c.limit == 200 { usize::MAX } else { c.limit as usize * MB };
        if held > limit {
            return Err(Fail::new("cache:too-much", format!("the cache holds {} bytes (layers {:?}), the limit is {} MB", held, which, c.limit)));
        }
        Ok(which.len())
    }
    async fn go(c: &LCase, dir: std::path::PathBuf, ctx: &mut Ctx) -> R<()> {
        let ls = Self::build(c).await?;
        let below = Below { s: Default::default(), real: if c.real { Some(DirectoryArchiveBackend::new(dir)) } else { None } };
        for (b, l) in ls.iter().zip(&c.layers) {
            if l.stored {
                below.store_layer_file(b.id, b.bytes.clone()).await.map_err(|e| Fail::new("cache:setup", format!("{}", e)))?;
            }
        }
        {
            let mut s = below.s.lock().unwrap();
            s.accesses = 0;
            s.fails = c.fails.iter().map(|(n, k)| (*n as u64, KINDS[*k as usize % KINDS.len()])).collect();
        }
        let limit = if c.limit == 200 { usize::MAX } else { c.limit as usize };
        let cache: Cache = LruArchiveBackend::new(below.clone(), below.clone(), limit);
        let events: Mutex<Vec<Event>> = Mutex::new(vec![]);
        let mut shared = false;
        let mut evicting = false;
        for r in c.rounds.iter() {
            // the real thing takes its time: one at a time
            let all: Vec<AOp> = r.clients.iter().flatten().cloned().collect();
            let clients: Vec<Vec<AOp>> = if c.real { vec![all] } else { r.clients.clone() };
            let mut tasks: Vec<conc::Task> = vec![];
            let first = events.lock().unwrap().len();
            for ops in clients {
                let (cache, ls, events) = (cache.clone(), &ls, &events);
                tasks.push(Box::pin(async move {
                    for op in ops.iter() {
                        let i = {
                            let mut g = events.lock().unwrap();
                            g.push(Event { op: op.clone(), t0: conc::now(), t1: u64::MAX, ans: None });
                            g.len() - 1
                        };
                        let a = OP.scope(i, Self::one(&cache, ls, op)).await;
                        {
                            let mut g = events.lock().unwrap();
                            g[i].ans = Some(a);
                            g[i].t1 = conc::now();
                        }
                        conc::pause().await;
                    }
                }));
            }
            let n = tasks.len();
            let abandon: Vec<(usize, u32)> = if c.real { vec![] } else { r.abandon.iter().map(|(t, k)| (*t as usize % n.max(1), *k as u32)).collect() };
            let polls = conc::explore_cancel(tasks, &r.schedule, Duration::from_secs(8), &abandon).await?;
            ctx.count("polls scheduled", polls);
            let ev = events.lock().unwrap();
            let mut gone = 0;
            for (i, e) in ev.iter().enumerate().skip(first) {
                gone += e.ans.is_none() as u64;
                shared |= ev.iter().enumerate().skip(first).any(|(j, o)| {
                    i != j && matches!(e.op, AOp::Get(_) | AOp::Part(..) | AOp::From(..)) && Self::layer(&o.op).is_some() && Self::layer(&o.op) == Self::layer(&e.op) && o.t0 < e.t1 && e.t0 < o.t1
                });
            }
            ctx.count("operations", (ev.len() - first) as u64);
            ctx.count("abandoned", gone);
            let failed = below.s.lock().unwrap().failed.clone();
            ctx.count("injected failures so far", failed.len() as u64);
            Self::judge(c, &ls, &ev, &failed)?;
            let present: usize = ls.iter().map(|b| b.bytes.len()).sum();
            evicting |= present > limit.saturating_mul(MB);
            drop(ev);
            if r.probe {
                let held = Self::probe(c, &cache, &below, &ls).await?;
                ctx.count("layers held at probes", held as u64);
            }
        }
        Self::probe(c, &cache, &below, &ls).await?;
        // a layer that was just read stays, if it fits
        below.s.lock().unwrap().fails.clear();
        for b in ls.iter() {
            if below.layer_exists(b.id).await.unwrap_or(false) && b.bytes.len() <= limit.saturating_mul(MB) {
                for twice in 0..2 {
                    let g = below.s.lock().unwrap().gets;
                    match tokio::time::timeout(Duration::from_secs(8), cache.get_layer_bytes(b.id)).await {
                        Ok(Ok(x)) if x == b.bytes => {}
                        Ok(r) => return Err(Fail::new("cache:answer", format!("in the end a layer reads as {:?}", r.map(|b| b.len())))),
                        Err(_) => return Err(Fail::new("hang", "in the end, reading a layer waits forever")),
                    }
                    if twice == 1 && below.s.lock().unwrap().gets != g {
                        return Err(Fail::new("cache:useless", format!("a layer of {} bytes was read twice in a row from storage; the limit is {} MB", b.bytes.len(), c.limit)));
                    }
                }
            }
        }
        Self::probe(c, &cache, &below, &ls).await?;
        if c.real {
            ctx.label("directory below");
        }
        ctx.label(match c.limit {
            0 => "no cache",
            200 => "unlimited",
            _ => "limited",
        });
        if shared {
            ctx.label("overlapping requests for a layer");
        }
        if evicting {
            ctx.label("more layers than fit");
        }
        ctx.nontrivial = shared || evicting;
        Ok(())
    }
}

impl Prop for C17 {
    type Case = LCase;
    const ID: &'static str = "C17";
    const RULE: &'static str = "distinct cases in which requests for one layer overlapped, or the layers together did not fit";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 9000 } else { 120000 }
    }
    fn single_threaded() -> bool {
        true
    }
    fn strategy(_t: Tier) -> BoxedStrategy<LCase> {
        let l = || prop_oneof![4 => Just(0u8), 2 => Just(1u8), 2 => 0u8..6];
        let f = || 0u8..8;
        let op = prop_oneof![
            8 => l().prop_map(AOp::Get),
            4 => (l(), f()).prop_map(|(a, b)| AOp::Part(a, b)),
            3 => (l(), f(), any::<u8>()).prop_map(|(a, b, c)| AOp::From(a, b, c)),
            1 => (l(), f(), 4u8..8).prop_map(|(a, b, c)| AOp::From(a, b, c)),
            3 => l().prop_map(AOp::Store),
            1 => l().prop_map(AOp::Exists),
            1 => l().prop_map(AOp::Size),
            1 => (l(), f()).prop_map(|(a, b)| AOp::PartExists(a, b)),
            1 => (l(), f()).prop_map(|(a, b)| AOp::PartSize(a, b)),
            1 => l().prop_map(AOp::Parent),
            1 => Just(AOp::Names),
            1 => l().prop_map(AOp::Rollup),
            1 => (l(), l()).prop_map(|(a, b)| AOp::SetRollup(a, b)),
        ];
        let layer = (
            prop::collection::vec((f(), prop_oneof![Just(0u16), 1u16..300, 300u16..5000]), 0..5),
            prop_oneof![4 => Just(0u8), 2 => 1u8..4, 2 => Just(4u8), 1 => Just(5u8)],
            prop_oneof![2 => Just(0i8), 1 => -1i8..2, 1 => -100i8..100],
            prop::bool::weighted(0.7),
        )
            .prop_map(|(files, quarters, delta, stored)| LayerSpec { files, quarters, delta, stored });
        let round = (
            prop::collection::vec(prop::collection::vec(op, 1..5), 1..4),
            crate::props::races::schedule(20),
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((0u8..3, 0u8..12), 1..3)],
            any::<bool>(),
        )
            .prop_map(|(clients, schedule, abandon, probe)| Round { clients, schedule, abandon, probe });
        (
            prop_oneof![1 => Just(0u8), 5 => Just(1u8), 1 => Just(2u8), 1 => Just(200u8)],
            prop::collection::vec(layer, 1..6),
            prop::collection::vec(round, 1..4),
            prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((0u16..40, 0u8..4), 1..4)],
            prop::bool::weighted(0.1),
        )
            .prop_map(|(limit, layers, rounds, fails, real)| LCase { limit, layers, rounds, fails, real })
            .boxed()
    }
    fn run(c: &LCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        let dir = ctx.new_dir();
        rt.block_on(Self::go(c, dir, ctx))
    }
    fn max_shrink() -> u32 {
        600
    }
    fn assumptions() -> Vec<String> {
        vec![
            "What the cache holds is what it still returns while every access of the storage below fails, when no request is under way.".into(),
            "A request may report a failure of the storage that hit another request for the same layer at the same time.".into(),
        ]
    }
}
