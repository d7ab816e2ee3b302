//! Observations that need the asynchronous interface: change sets, lineage, snapshots.
use crate::model::Set;
use crate::runner::{Ctx, Fail, R};
use crate::world::*;
use async_trait::async_trait;
use std::collections::BTreeSet;
use std::sync::Arc;
use terminus_store::layer::{IdTriple, Layer};
use terminus_store::storage::LayerStore;
use terminus_store::store::StoreLayer;

type It = Vec<IdTriple>;

/// The change queries of one layer, whoever answers them.
#[async_trait]
pub trait Changes: Send + Sync {
    async fn exists(&self, add: bool, t: IdTriple) -> std::io::Result<bool>;
    async fn all(&self, add: bool, lim: usize) -> std::io::Result<It>;
    async fn s(&self, add: bool, s: u64, lim: usize) -> std::io::Result<It>;
    async fn sp(&self, add: bool, s: u64, p: u64, lim: usize) -> std::io::Result<It>;
    async fn p(&self, add: bool, p: u64, lim: usize) -> std::io::Result<It>;
    async fn o(&self, add: bool, o: u64, lim: usize) -> std::io::Result<It>;
    async fn count(&self, add: bool) -> std::io::Result<usize>;
}

#[async_trait]
impl Changes for StoreLayer {
    async fn exists(&self, add: bool, t: IdTriple) -> std::io::Result<bool> {
        if add {
            self.triple_addition_exists(t.subject, t.predicate, t.object).await
        } else {
            self.triple_removal_exists(t.subject, t.predicate, t.object).await
        }
    }
    async fn all(&self, add: bool, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.triple_additions().await? } else { self.triple_removals().await? }.take(lim).collect())
    }
    async fn s(&self, add: bool, s: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.triple_additions_s(s).await? } else { self.triple_removals_s(s).await? }.take(lim).collect())
    }
    async fn sp(&self, add: bool, s: u64, p: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.triple_additions_sp(s, p).await? } else { self.triple_removals_sp(s, p).await? }.take(lim).collect())
    }
    async fn p(&self, add: bool, p: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.triple_additions_p(p).await? } else { self.triple_removals_p(p).await? }.take(lim).collect())
    }
    async fn o(&self, add: bool, o: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.triple_additions_o(o).await? } else { self.triple_removals_o(o).await? }.take(lim).collect())
    }
    async fn count(&self, add: bool) -> std::io::Result<usize> {
        if add {
            self.triple_layer_addition_count().await
        } else {
            self.triple_layer_removal_count().await
        }
    }
}

/// Change queries by layer name, answered by a layer store.
pub struct ByName(pub Arc<dyn LayerStore>, pub Name);

#[async_trait]
impl Changes for ByName {
    async fn exists(&self, add: bool, t: IdTriple) -> std::io::Result<bool> {
        if add {
            self.0.triple_addition_exists(self.1, t.subject, t.predicate, t.object).await
        } else {
            self.0.triple_removal_exists(self.1, t.subject, t.predicate, t.object).await
        }
    }
    async fn all(&self, add: bool, lim: usize) -> std::io::Result<It> {
        Ok(if add {
            self.0.triple_additions(self.1).await?.take(lim).collect()
        } else {
            self.0.triple_removals(self.1).await?.take(lim).collect()
        })
    }
    async fn s(&self, add: bool, s: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.0.triple_additions_s(self.1, s).await? } else { self.0.triple_removals_s(self.1, s).await? }.take(lim).collect())
    }
    async fn sp(&self, add: bool, s: u64, p: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.0.triple_additions_sp(self.1, s, p).await? } else { self.0.triple_removals_sp(self.1, s, p).await? }.take(lim).collect())
    }
    async fn p(&self, add: bool, p: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.0.triple_additions_p(self.1, p).await? } else { self.0.triple_removals_p(self.1, p).await? }.take(lim).collect())
    }
    async fn o(&self, add: bool, o: u64, lim: usize) -> std::io::Result<It> {
        Ok(if add { self.0.triple_additions_o(self.1, o).await? } else { self.0.triple_removals_o(self.1, o).await? }.take(lim).collect())
    }
    async fn count(&self, add: bool) -> std::io::Result<usize> {
        if add {
            self.0.triple_layer_addition_count(self.1).await
        } else {
            self.0.triple_layer_removal_count(self.1).await
        }
    }
}

fn filter<F: Fn(&IdTriple) -> bool>(want: &BTreeSet<IdTriple>, f: F) -> BTreeSet<IdTriple> {
    want.iter().filter(|t| f(t)).cloned().collect()
}

/// All change queries against the expected net change. `nn`, `np`: sizes of the dictionaries.
pub async fn check_changes(c: &dyn Changes, adds: &BTreeSet<IdTriple>, rems: &BTreeSet<IdTriple>, nn: u64, np: u64, what: &str, budget: usize) -> R<()> {
    for (add, want, other) in [(true, adds, rems), (false, rems, adds)] {
        let w = format!("{} {}", what, if add { "additions" } else { "removals" });
        let lim = want.len() * 2 + 20;
        let n = io(&format!("{} count", w), c.count(add).await)?;
        if n != want.len() {
            return Err(Fail::new(format!("{} count:wrong", w), format!("{} count is {}, expected {}", w, n, want.len())));
        }
        same(&w, &io(&w, c.all(add, lim).await)?, want)?;
        let pick = |n: u64| -> Vec<u64> {
            let mut v: Vec<u64> = if n as usize <= budget {
                (1..=n + 2).collect()
            } else {
                let st = n / budget as u64 + 1;
                (1..=n + 2).filter(|i| i % st == 0 || *i < 3 || *i + 2 > n).collect()
            };
            v.push(n + 1000);
            v
        };
        let mut subj: BTreeSet<u64> = pick(nn).into_iter().collect();
        let mut preds: BTreeSet<u64> = pick(np).into_iter().collect();
        let mut obj = subj.clone();
        let st = (want.len() / budget).max(1);
        for t in want.iter().step_by(st).chain(other.iter().step_by((other.len() / budget).max(1))) {
            subj.insert(t.subject);
            preds.insert(t.predicate);
            obj.insert(t.object);
        }
        for &s in &subj {
            same(&format!("{} _s", w), &io(&w, c.s(add, s, lim).await)?, &filter(want, |t| t.subject == s)).map_err(|f| f.ctx(format!("subject {}", s)))?;
        }
        for &p in &preds {
            same(&format!("{} _p", w), &io(&w, c.p(add, p, lim).await)?, &filter(want, |t| t.predicate == p)).map_err(|f| f.ctx(format!("predicate {}", p)))?;
        }
        for &o in &obj {
            same(&format!("{} _o", w), &io(&w, c.o(add, o, lim).await)?, &filter(want, |t| t.object == o)).map_err(|f| f.ctx(format!("object {}", o)))?;
        }
        let mut sps: BTreeSet<(u64, u64)> = BTreeSet::new();
        let sv: Vec<u64> = subj.iter().cloned().collect();
        let pv: Vec<u64> = preds.iter().cloned().collect();
        let total = sv.len() * pv.len();
        for i in (0..total).step_by((total / (budget * 2)).max(1)) {
            sps.insert((sv[i % sv.len()], pv[i / sv.len()]));
        }
        for t in want.iter().step_by(st) {
            sps.insert((t.subject, t.predicate));
        }
        for (s, p) in sps {
            let m = filter(want, |t| t.subject == s && t.predicate == p);
            same(&format!("{} _sp", w), &io(&w, c.sp(add, s, p, lim).await)?, &m).map_err(|f| f.ctx(format!("subject {} predicate {}", s, p)))?;
            let mut os: BTreeSet<u64> = m.iter().flat_map(|t| [t.object.max(2) - 1, t.object, t.object + 1]).collect();
            os.insert(1);
            os.insert(nn + 1);
            for o in os {
                let t = IdTriple::new(s, p, o);
                if io(&w, c.exists(add, t).await)? != want.contains(&t) {
                    return Err(Fail::new(format!("{} exists:wrong", w), format!("{}: existence of {:?} is wrong, expected {}", w, t, want.contains(&t))));
                }
            }
        }
        for t in other.iter().step_by((other.len() / budget).max(1)) {
            if io(&w, c.exists(add, *t).await)? {
                return Err(Fail::new(format!("{} exists:wrong", w), format!("{}: {:?} is claimed", w, t)));
            }
        }
    }
    Ok(())
}

pub async fn model_changes(w: &World, l: &StoreLayer, ix: usize) -> R<(BTreeSet<IdTriple>, BTreeSet<IdTriple>)> {
    let m = &w.layers[ix].m;
    Ok((expect_ids(&w.voc, l, &m.adds)?, expect_ids(&w.voc, l, &m.rems)?))
}

/// Everything about a layer that has to stay the same for ever.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Snap {
    pub name: Name,
    pub parent: Option<Name>,
    pub stack: Vec<Name>,
    pub triples: BTreeSet<IdTriple>,
    pub count: usize,
    pub ids: Ids,
    pub adds: BTreeSet<IdTriple>,
    pub rems: BTreeSet<IdTriple>,
    pub addc: usize,
    pub remc: usize,
}

pub async fn snap(w: &World, l: &StoreLayer, ix: usize, what: &str) -> R<Snap> {
    let m = &w.layers[ix].m;
    let ids = check_dictionary(&w.voc, l, m, what)?;
    check_contents(&w.voc, l, m, what)?;
    let stack = io("retrieve_layer_stack_names", l.retrieve_layer_stack_names().await)?;
    let lim = (m.set.len() + m.adds.len() + m.rems.len()) * 2 + 50;
    let parent = match io("parent", l.parent().await)? {
        Some(p) => {
            if l.parent_name() != Some(p.name()) {
                return Err(Fail::new("lineage:parent", format!("{}: parent() and parent_name() differ", what)));
            }
            Some(p.name())
        }
        None => {
            if l.parent_name().is_some() {
                return Err(Fail::new("lineage:parent", format!("{}: parent() is none but parent_name() is not", what)));
            }
            None
        }
    };
    let col = |v: Vec<IdTriple>, n: &str| -> R<BTreeSet<IdTriple>> {
        let s: BTreeSet<IdTriple> = v.iter().cloned().collect();
        if s.len() != v.len() {
            return Err(Fail::new("snap:duplicates", format!("{}: {} lists a triple twice", what, n)));
        }
        Ok(s)
    };
    Ok(Snap {
        name: l.name(),
        parent,
        stack,
        triples: col(bounded("triples", l.triples(), lim)?, "triples")?,
        count: l.triple_count(),
        ids,
        adds: col(io("triple_additions", Changes::all(l, true, lim).await)?, "triple_additions")?,
        rems: col(io("triple_removals", Changes::all(l, false, lim).await)?, "triple_removals")?,
        addc: io("triple_layer_addition_count", l.triple_layer_addition_count().await)?,
        remc: io("triple_layer_removal_count", l.triple_layer_removal_count().await)?,
    })
}

pub fn compare_snaps(a: &Snap, b: &Snap, what: &str) -> R<()> {
    let f = |n: &str, m: String| Err(Fail::new(format!("changed:{}", n), format!("{}: {} changed: {}", what, n, m)));
    if a.name != b.name {
        return f("name", format!("{:?} -> {:?}", a.name, b.name));
    }
    if a.parent != b.parent {
        return f("parent", format!("{:?} -> {:?}", a.parent, b.parent));
    }
    if a.stack != b.stack {
        return f("stack", format!("{} names -> {} names", a.stack.len(), b.stack.len()));
    }
    if a.triples != b.triples {
        return f("triples", format!("{} -> {}", a.triples.len(), b.triples.len()));
    }
    if a.count != b.count {
        return f("triple count", format!("{} -> {}", a.count, b.count));
    }
    if a.ids != b.ids {
        return f("ids", String::new());
    }
    if a.adds != b.adds {
        return f("additions", format!("{:?} -> {:?}", a.adds, b.adds));
    }
    if a.rems != b.rems {
        return f("removals", format!("{:?} -> {:?}", a.rems, b.rems));
    }
    if (a.addc, a.remc) != (b.addc, b.remc) {
        return f("change counts", format!("{:?} -> {:?}", (a.addc, a.remc), (b.addc, b.remc)));
    }
    Ok(())
}

/// The snapshot against the model of the history.
pub async fn snap_matches_model(w: &World, l: &StoreLayer, s: &Snap, ix: usize, what: &str) -> R<()> {
    let m = &w.layers[ix].m;
    let (a, r) = model_changes(w, l, ix).await?;
    if s.adds != a || s.rems != r {
        return Err(Fail::new("changes:wrong", format!("{}: reported additions/removals {:?}/{:?}, expected {:?}/{:?}", what, s.adds, s.rems, a, r)));
    }
    if (s.addc, s.remc) != (a.len(), r.len()) {
        return Err(Fail::new("changes:count", format!("{}: change counts {:?}, expected {:?}", what, (s.addc, s.remc), (a.len(), r.len()))));
    }
    check_lineage_snap(w, s, ix, what)?;
    if s.triples.len() != m.set.len() {
        return Err(Fail::new("contents:wrong", format!("{}: {} triples, expected {}", what, s.triples.len(), m.set.len())));
    }
    Ok(())
}

pub fn check_lineage_snap(w: &World, s: &Snap, ix: usize, what: &str) -> R<()> {
    let m = &w.layers[ix].m;
    let path: Vec<Name> = w.path(ix).iter().map(|i| w.layers[*i].name).collect();
    if s.name != w.layers[ix].name {
        return Err(Fail::new("lineage:name", format!("{}: name is {:?}", what, s.name)));
    }
    if s.parent != m.parent.map(|p| w.layers[p].name) {
        return Err(Fail::new("lineage:parent", format!("{}: parent is {:?}, expected layer #{:?}", what, s.parent, m.parent)));
    }
    if s.stack != path {
        return Err(Fail::new("lineage:stack", format!("{}: stack of {} names, expected {}", what, s.stack.len(), path.len())));
    }
    Ok(())
}

/// Takes snapshots of new layers (checked against the model) and compares old ones.
pub struct Watch {
    pub snaps: Vec<Option<Snap>>,
}

impl Watch {
    pub fn new() -> Watch {
        Watch { snaps: vec![] }
    }
    /// `which`: indices to look at
    pub async fn look(&mut self, w: &mut World, which: &[usize], what: &str, ctx: &mut Ctx) -> R<()> {
        while self.snaps.len() < w.layers.len() {
            self.snaps.push(None);
        }
        for &ix in which {
            let l = w.layer(ix).await?;
            let s = snap(w, &l, ix, what).await.map_err(|f| f.ctx(format!("layer #{} ({})", ix, w.layers[ix].how)))?;
            match &self.snaps[ix] {
                None => {
                    snap_matches_model(w, &l, &s, ix, what).await.map_err(|f| f.ctx(format!("layer #{} ({})", ix, w.layers[ix].how)))?;
                    self.snaps[ix] = Some(s);
                }
                Some(old) => {
                    compare_snaps(old, &s, what).map_err(|f| f.ctx(format!("layer #{} ({})", ix, w.layers[ix].how)))?;
                }
            }
            ctx.count("snapshots", 1);
        }
        Ok(())
    }
    pub async fn all(&mut self, w: &mut World, what: &str, ctx: &mut Ctx) -> R<()> {
        let v: Vec<usize> = (0..w.layers.len()).collect();
        self.look(w, &v, what, ctx).await
    }
}

/// A full set of query comparisons on one layer, against the model.
pub async fn check_everything(w: &World, l: &StoreLayer, ix: usize, what: &str, pairs: usize) -> R<()> {
    let m = &w.layers[ix].m;
    check_contents(&w.voc, l, m, what)?;
    let want = expect_ids(&w.voc, l, &m.set)?;
    check_patterns(l, &want, what, pairs)?;
    let (a, r) = model_changes(w, l, ix).await?;
    check_changes(l, &a, &r, (m.dict.nodes.len() + m.dict.values.len()) as u64, m.dict.preds.len() as u64, what, 12).await
}

pub fn diff_set(a: &Set, b: &Set) -> Set {
    a.difference(b).cloned().collect()
}
