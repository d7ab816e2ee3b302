//! C11: labels against their sequential specification.
use crate::runner::*;
use crate::world::*;
use async_trait::async_trait;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::sync::Arc;
use terminus_store::layer::{Layer, ValueTriple};
use terminus_store::storage::{CachedLayerStore, Label, LabelStore, LockingHashMapLayerCache};
use terminus_store::store::{NamedGraph, Store, StoreLayer};

/// Any label store behind one type.
#[derive(Clone)]
pub struct AnyLabels(pub Arc<dyn LabelStore>);

#[async_trait]
impl LabelStore for AnyLabels {
    async fn labels(&self) -> io::Result<Vec<Label>> {
        self.0.labels().await
    }
    async fn create_label(&self, name: &str) -> io::Result<Label> {
        self.0.create_label(name).await
    }
    async fn get_label(&self, name: &str) -> io::Result<Option<Label>> {
        self.0.get_label(name).await
    }
    async fn set_label_option(&self, label: &Label, layer: Option<[u32; 5]>) -> io::Result<Option<Label>> {
        self.0.set_label_option(label, layer).await
    }
    async fn delete_label(&self, name: &str) -> io::Result<bool> {
        self.0.delete_label(name).await
    }
    async fn set_label(&self, label: &Label, layer: [u32; 5]) -> io::Result<Option<Label>> {
        self.0.set_label(label, layer).await
    }
    async fn clear_label(&self, label: &Label) -> io::Result<Option<Label>> {
        self.0.clear_label(label).await
    }
}

/// Label names of different shapes. All but those of style 7 are valid file names.
pub fn label_name(style: u8, n: u8) -> String {
    let n = n as usize % 5;
    match style % 8 {
        0 => ["main", "dev", "x", "prod", "test"][n].to_string(),
        // one is a prefix of the other; the suffix used on disk
        1 => ["a", "a.label", "a.b", "a.b.label", "label"][n].to_string(),
        2 => ["ünï", "日本語", "e\u{301}", "é", "🦀"][n].to_string(),
        3 => ["with space", " lead", "tail ", "tab\there", "new\nline"][n].to_string(),
        4 => ["A", "a", "AA", "aA", "Aa"][n].to_string(),
        // together with the suffix, these are file names all the same
        6 => ["", ".label", ".", ".hidden", ".."][n].to_string(),
        // a store on disk may refuse these
        7 => ["../x", "plain", "a/b", "x/../y", "dir/"][n].to_string(),
        _ => format!("{}{}", "long-name-".repeat(20), n),
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum LOp {
    Create(u8),
    Open(u8),
    Delete(u8),
    /// delete through a handle
    HandleDelete(u32),
    Labels,
    /// handle, layer
    SetHead(u32, u32),
    ForceHead(u32, u32),
    /// handle, layer, offset from the current version (0: right)
    ForceVersion(u32, u32, i8),
    Head(u32),
    Get(u8),
    /// compare-and-set with the n-th label value seen (from the newest), new layer (None clears)
    Cas(u32, Option<u32>),
    CasCurrent(u8, Option<u32>),
    Rollup(u32),
    Squash(u32),
    Reopen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct LCase {
    /// 0..4: kinds of stores; +4: cached directory labels
    pub kind: u8,
    pub style: u8,
    /// parents: 0 = base, n = on layer n-1 (modulo)
    pub tree: Vec<u8>,
    pub ops: Vec<LOp>,
}

pub async fn build_tree(store: &Store, tree: &[u8]) -> R<(Vec<StoreLayer>, Vec<Option<usize>>)> {
    let mut layers: Vec<StoreLayer> = vec![];
    let mut parents = vec![];
    for (i, t) in tree.iter().enumerate() {
        let p = *t as usize % (i + 1);
        let b = if p == 0 {
            parents.push(None);
            io("create_base_layer", store.create_base_layer().await)?
        } else {
            parents.push(Some(p - 1));
            io("open_write", layers[p - 1].open_write().await)?
        };
        io("add", b.add_value_triple(ValueTriple::new_node(&format!("s{}", i), "p", "o")))?;
        layers.push(io("commit", b.commit().await)?);
    }
    Ok((layers, parents))
}

pub fn ancestor_or_self(parents: &[Option<usize>], l: usize, anc: usize) -> bool {
    let mut c = Some(l);
    while let Some(x) = c {
        if x == anc {
            return true;
        }
        c = parents[x];
    }
    false
}

/// the model value of a label: head (index of layer) and version
pub type LV = (Option<usize>, u64);

pub struct C11;
impl C11 {
    fn open(base: &Base, labels: &Arc<dyn LabelStore>) -> Store {
        match base {
            Base::Mem(l, _) => Store::new(AnyLabels(labels.clone()), CachedLayerStore::new(l.clone(), LockingHashMapLayerCache::new())),
            _ => Store::new(AnyLabels(labels.clone()), base.cached()),
        }
    }
}

fn bad<Tv>(sig: &str, m: String) -> R<Tv> {
    Err(Fail::new(format!("label:{}", sig), m))
}

impl Prop for C11 {
    type Case = LCase;
    const ID: &'static str = "C11";
    const RULE: &'static str = "distinct cases with at least three successful and one refused change of labels";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 12000 } else { 150000 }
    }
    fn strategy(_t: Tier) -> BoxedStrategy<LCase> {
        let lay = || prop_oneof![3 => 0u32..3, 1 => 0u32..8];
        let h = || prop_oneof![3 => Just(0u32), 2 => 0u32..6];
        let name = || prop_oneof![4 => Just(0u8), 2 => Just(1u8), 1 => 0u8..5];
        let ol = move || prop_oneof![3 => lay().prop_map(Some), 2 => Just(None)];
        let op = prop_oneof![
            4 => name().prop_map(LOp::Create),
            2 => name().prop_map(LOp::Open),
            2 => name().prop_map(LOp::Delete),
            1 => h().prop_map(LOp::HandleDelete),
            1 => Just(LOp::Labels),
            6 => (h(), lay()).prop_map(|(a, b)| LOp::SetHead(a, b)),
            3 => (h(), lay()).prop_map(|(a, b)| LOp::ForceHead(a, b)),
            4 => (h(), lay(), prop_oneof![3 => Just(0i8), 2 => -2i8..3]).prop_map(|(a, b, c)| LOp::ForceVersion(a, b, c)),
            2 => h().prop_map(LOp::Head),
            2 => name().prop_map(LOp::Get),
            5 => (0u32..10, ol()).prop_map(|(a, b)| LOp::Cas(a, b)),
            5 => (name(), ol()).prop_map(|(a, b)| LOp::CasCurrent(a, b)),
            1 => lay().prop_map(LOp::Rollup),
            1 => lay().prop_map(LOp::Squash),
            2 => Just(LOp::Reopen),
        ];
        (0u8..8, 0u8..8, prop::collection::vec(0u8..6, 1..6), prop::collection::vec(op, 1..40))
            .prop_map(|(kind, style, tree, ops)| LCase { kind, style, tree, ops })
            .boxed()
    }
    fn run(c: &LCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let base = Base::new(Kind::of(c.kind), ctx);
            let cached = c.kind >= 4;
            ctx.label(match (&base, cached) {
                (Base::Mem(..), _) => "labels:memory",
                (_, false) => "labels:directory",
                (_, true) => "labels:cached-directory",
            });
            let mut labels = io("open labels", base.labels(cached).await)?;
            let mut store = Self::open(&base, &labels);
            let (mut layers, mut parents) = build_tree(&store, &c.tree).await?;
            let mut model: BTreeMap<String, LV> = BTreeMap::new();
            let mut handles: Vec<NamedGraph> = vec![];
            let mut pool: Vec<Label> = vec![];
            let (mut good, mut refused) = (0, 0);
            let mut used: BTreeSet<String> = BTreeSet::new();
            for op in &c.ops {
                let what = format!("{:?}", op);
                let pick = |n: u32| layers.len() - 1 - (n as usize % layers.len());
                let ph = |n: u32| if handles.is_empty() { None } else { Some(handles.len() - 1 - (n as usize % handles.len())) };
                match op {
                    LOp::Create(n) => {
                        let name = label_name(c.style, *n);
                        used.insert(name.clone());
                        let r = store.create(&name).await;
                        match (model.contains_key(&name), r) {
                            (true, Ok(_)) => return bad("create-twice", format!("creating the existing label {:?} succeeded", name)),
                            (true, Err(_)) => refused += 1,
                            (false, Err(_)) if name.contains('/') && !matches!(base, Base::Mem(..)) => {
                                ctx.label("create-refused-for-its-name");
                                refused += 1;
                            }
                            (false, Err(e)) => return bad("create", format!("creating {:?} failed: {}", name, e)),
                            (false, Ok(h)) => {
                                if h.name() != name {
                                    return bad("name", format!("handle is named {:?} instead of {:?}", h.name(), name));
                                }
                                handles.push(h);
                                model.insert(name, (None, 0));
                                good += 1;
                            }
                        }
                    }
                    LOp::Open(n) => {
                        let name = label_name(c.style, *n);
                        let r = io("open", store.open(&name).await)?;
                        if r.is_some() != model.contains_key(&name) {
                            return bad("open", format!("opening {:?} gives {}", name, r.is_some()));
                        }
                        if let Some(h) = r {
                            if h.name() != name {
                                return bad("name", format!("handle is named {:?} instead of {:?}", h.name(), name));
                            }
                            handles.push(h);
                        }
                    }
                    LOp::Delete(n) => {
                        let name = label_name(c.style, *n);
                        let r = io("delete", store.delete(&name).await)?;
                        if r != model.remove(&name).is_some() {
                            return bad("delete", format!("deleting {:?} gives {}", name, r));
                        }
                        if r {
                            good += 1;
                            ctx.label("op:delete");
                        }
                    }
                    LOp::HandleDelete(h) => {
                        if let Some(h) = ph(*h) {
                            io("delete through handle", handles[h].delete().await)?;
                            model.remove(handles[h].name());
                            ctx.label("op:delete");
                        }
                    }
                    LOp::Labels => {
                        let mut v = io("labels", store.labels().await)?;
                        v.sort();
                        let w: Vec<String> = model.keys().cloned().collect();
                        if v != w {
                            return bad("list", format!("labels() is {:?}, expected {:?}", v, w));
                        }
                    }
                    LOp::SetHead(h, l) => {
                        if let Some(h) = ph(*h) {
                            let name = handles[h].name().to_string();
                            let l = pick(*l);
                            let r = handles[h].set_head(&layers[l]).await;
                            match model.get_mut(&name) {
                                None => {
                                    if r.is_ok() {
                                        return bad("set-deleted", format!("set_head on the deleted label {:?} gives {:?}", name, r));
                                    }
                                    ctx.label("set_head-on-deleted");
                                    refused += 1;
                                }
                                Some(v) => {
                                    let want = v.0.map(|a| ancestor_or_self(&parents, l, a)).unwrap_or(true);
                                    let r = io("set_head", r)?;
                                    if r != want {
                                        return bad("set_head", format!("set_head of layer {} over {:?} gives {}, expected {} (parents {:?})", l, v.0, r, want, parents));
                                    }
                                    if want {
                                        *v = (Some(l), v.1 + 1);
                                        good += 1;
                                    } else {
                                        ctx.label("set_head-refused");
                                        refused += 1;
                                    }
                                }
                            }
                        }
                    }
                    LOp::ForceHead(h, l) => {
                        if let Some(h) = ph(*h) {
                            let name = handles[h].name().to_string();
                            let l = pick(*l);
                            let r = tokio::time::timeout(std::time::Duration::from_secs(20), handles[h].force_set_head(&layers[l])).await;
                            let r = match r {
                                Ok(r) => r,
                                Err(_) => return bad("force-endless", format!("force_set_head on {:?} does not end", name)),
                            };
                            match model.get_mut(&name) {
                                None => {
                                    if r.is_ok() {
                                        return bad("set-deleted", format!("force_set_head on the deleted label {:?} succeeds", name));
                                    }
                                    refused += 1;
                                }
                                Some(v) => {
                                    io("force_set_head", r)?;
                                    *v = (Some(l), v.1 + 1);
                                    good += 1;
                                }
                            }
                        }
                    }
                    LOp::ForceVersion(h, l, d) => {
                        if let Some(h) = ph(*h) {
                            let name = handles[h].name().to_string();
                            let l = pick(*l);
                            let cur = model.get(&name).map(|v| v.1).unwrap_or(0);
                            let ver = (cur as i64 + *d as i64).max(0) as u64;
                            let r = handles[h].force_set_head_version(&layers[l], ver).await;
                            match model.get_mut(&name) {
                                None => {
                                    if r.is_ok() {
                                        return bad("set-deleted", format!("force_set_head_version on the deleted label {:?} gives {:?}", name, r));
                                    }
                                    refused += 1;
                                }
                                Some(v) => {
                                    let r = io("force_set_head_version", r)?;
                                    if r != (ver == v.1) {
                                        return bad("force-version", format!("force_set_head_version with {} on version {} gives {}", ver, v.1, r));
                                    }
                                    if r {
                                        *v = (Some(l), v.1 + 1);
                                        good += 1;
                                    } else {
                                        ctx.label("force_set_head_version-refused");
                                        refused += 1;
                                    }
                                }
                            }
                        }
                    }
                    LOp::Head(h) => {
                        if let Some(h) = ph(*h) {
                            let name = handles[h].name().to_string();
                            Self::check_head(&handles[h], &name, &model, &layers, &what).await?;
                        }
                    }
                    LOp::Get(n) => {
                        let name = label_name(c.style, *n);
                        if let Some(l) = io("get_label", labels.get_label(&name).await)? {
                            pool.push(l);
                        }
                    }
                    LOp::Cas(n, l) => {
                        if pool.is_empty() {
                            continue;
                        }
                        let old = pool[pool.len() - 1 - (*n as usize % pool.len())].clone();
                        let l = l.map(pick);
                        Self::cas(&labels, &old, l, &layers, &mut model, &mut pool, ctx, &mut good, &mut refused).await?;
                    }
                    LOp::CasCurrent(n, l) => {
                        let name = label_name(c.style, *n);
                        if let Some(old) = io("get_label", labels.get_label(&name).await)? {
                            let l = l.map(pick);
                            Self::cas(&labels, &old, l, &layers, &mut model, &mut pool, ctx, &mut good, &mut refused).await?;
                        }
                    }
                    LOp::Rollup(l) => {
                        io("rollup", layers[pick(*l)].rollup().await)?;
                    }
                    LOp::Squash(l) => {
                        if layers.len() < 12 {
                            let q = io("squash", layers[pick(*l)].squash().await)?;
                            layers.push(q);
                            parents.push(None);
                        }
                    }
                    LOp::Reopen => {
                        // handles belong to the old store object; they are opened again
                        let names: Vec<Name> = layers.iter().map(|l| l.name()).collect();
                        let hn: Vec<String> = handles.iter().map(|h| h.name().to_string()).collect();
                        labels = io("open labels", base.labels(cached).await)?;
                        store = Self::open(&base, &labels);
                        layers.clear();
                        for n in names {
                            layers.push(io("get_layer_from_id", store.get_layer_from_id(n).await)?.ok_or_else(|| Fail::new("layer-missing", "layer lost by reopening"))?);
                        }
                        handles.clear();
                        for n in hn {
                            let r = io("open", store.open(&n).await)?;
                            if r.is_some() != model.contains_key(&n) {
                                return bad("reopen", format!("after reopening, {:?} exists: {}", n, r.is_some()));
                            }
                            handles.extend(r);
                        }
                        ctx.label("op:reopen");
                    }
                }
                // the complete state after each step
                let mut all = io("LabelStore::labels", labels.labels().await)?;
                all.sort_by(|a, b| a.name.cmp(&b.name));
                let want: Vec<Label> = model.iter().map(|(n, v)| Label { name: n.clone(), layer: v.0.map(|l| layers[l].name()), version: v.1 }).collect();
                if all != want {
                    return bad("state", format!("after {}: labels are {:?}, expected {:?}", what, all, want));
                }
                for w in &want {
                    let g = io("get_label", labels.get_label(&w.name).await)?;
                    if g.as_ref() != Some(w) {
                        return bad("state", format!("after {}: label is {:?}, expected {:?}", what, g, w));
                    }
                }
                for n in 0..5 {
                    let name = label_name(c.style, n);
                    if !model.contains_key(&name) {
                        if let Some(g) = io("get_label", labels.get_label(&name).await)? {
                            return bad("state", format!("after {}: label {:?} should not exist", what, g));
                        }
                    }
                }
                if let Some(h) = handles.last() {
                    Self::check_head(h, h.name(), &model, &layers, &what).await?;
                }
            }
            for h in &handles {
                Self::check_head(h, h.name(), &model, &layers, "end").await?;
            }
            // what is on disk
            let fresh = io("open labels", base.labels(false).await)?;
            let mut all = io("labels", fresh.labels().await)?;
            all.sort_by(|a, b| a.name.cmp(&b.name));
            let want: Vec<Label> = model.iter().map(|(n, v)| Label { name: n.clone(), layer: v.0.map(|l| layers[l].name()), version: v.1 }).collect();
            if all != want {
                return bad("reopened", format!("stored labels are {:?}, expected {:?}", all, want));
            }
            if good >= 3 && refused >= 1 {
                ctx.nontrivial = true;
            }
            ctx.count("label-changes", good);
            ctx.count("refused-changes", refused);
            Ok(())
        })
    }
}

impl C11 {
    async fn check_head(h: &NamedGraph, name: &str, model: &BTreeMap<String, LV>, layers: &[StoreLayer], what: &str) -> R<()> {
        let r = h.head_version().await;
        match model.get(name) {
            None => {
                if r.is_ok() {
                    return bad("head-deleted", format!("after {}: head of the deleted label {:?} can be read", what, name));
                }
            }
            Some(v) => {
                let (l, n) = io("head_version", r)?;
                if l.as_ref().map(|l| l.name()) != v.0.map(|l| layers[l].name()) || n != v.1 {
                    return bad("head", format!("after {}: head_version of {:?} is ({:?}, {}), expected {:?}", what, name, l.map(|l| l.name()), n, v));
                }
                let l = io("head", h.head().await)?;
                if l.map(|l| l.name()) != v.0.map(|l| layers[l].name()) {
                    return bad("head", format!("after {}: head() of {:?} differs from head_version()", what, name));
                }
            }
        }
        Ok(())
    }

    #[allow(clippy::too_many_arguments)]
    async fn cas(
        labels: &Arc<dyn LabelStore>,
        old: &Label,
        l: Option<usize>,
        layers: &[StoreLayer],
        model: &mut BTreeMap<String, LV>,
        pool: &mut Vec<Label>,
        ctx: &mut Ctx,
        good: &mut u64,
        refused: &mut u64,
    ) -> R<()> {
        let r = match l {
            Some(l) => labels.set_label(old, layers[l].name()).await,
            None => labels.clear_label(old).await,
        };
        let cur = model.get(&old.name).map(|v| Label { name: old.name.clone(), layer: v.0.map(|l| layers[l].name()), version: v.1 });
        match cur {
            None => {
                if r.is_ok() {
                    return bad("cas-deleted", format!("compare-and-set on a deleted label gives {:?}", r));
                }
                *refused += 1;
            }
            Some(cur) => {
                let r = io("set_label", r)?;
                if &cur == old {
                    let new = Label { name: old.name.clone(), layer: l.map(|l| layers[l].name()), version: old.version + 1 };
                    if r.as_ref() != Some(&new) {
                        return bad("cas-refused", format!("compare-and-set of {:?} to {:?} gives {:?}", old, new, r));
                    }
                    model.insert(old.name.clone(), (l, new.version));
                    pool.push(new);
                    *good += 1;
                    if l.is_none() {
                        ctx.label("op:clear");
                    }
                } else {
                    if r.is_some() {
                        return bad("cas-stale", format!("compare-and-set with the stale value {:?} is accepted (current {:?})", old, cur));
                    }
                    ctx.label("stale-cas");
                    if cur.version == old.version {
                        ctx.label("stale-cas-same-version");
                    }
                    *refused += 1;
                }
            }
        }
        Ok(())
    }
}
