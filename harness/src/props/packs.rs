//! C09: packs between stores; C20: malformed packs.
use crate::gen::*;
use crate::model::Layer as ML;
use crate::observe::*;
use crate::runner::*;
use crate::terms::Voc;
use crate::world::*;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::path::Path;
use terminus_store::layer::Layer;
use terminus_store::storage::{pack_layer_parents};

fn bad<Tv>(s: &str, m: String) -> R<Tv> {
    Err(Fail::new(format!("pack:{}", s), m))
}

fn absent_name(n: u32) -> Name {
    [n, n.rotate_left(11), 0xdead_beef, !n, 7]
}

// ---------------------------------------------------------------- C09

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum POp {
    /// a step in one of the stores
    Step(u8, Step),
    /// export from a store: which of the layers there (bit mask over the newest ones, or all), in which order
    Export(u8, u32, u8),
    /// export a list which contains an id that is not in the store
    ExportAbsent(u8, u32),
    /// import pack n into a store: mask over the layers of the pack, order, absent ids, repetitions
    Import(u8, u8, u32, u8, u8),
    /// look for a present layer (whatever the answer is while its ancestors are missing)
    Look(u8, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct PCase {
    pub voc: Voc,
    pub kinds: [u8; 3],
    pub keep: bool,
    pub ops: Vec<POp>,
}

struct GL {
    name: Name,
    parent: Option<usize>,
    m: ML,
    snap: Snap,
    how: &'static str,
}

struct Side {
    w: World,
    present: BTreeSet<usize>,
    local: HashMap<usize, usize>,
    global: Vec<usize>,
}

struct Pack {
    from: usize,
    bytes: Vec<u8>,
    layers: Vec<usize>,
}

fn arrange(v: &[usize], mask: u32, order: u8) -> Vec<usize> {
    let mut out: Vec<usize> = if mask % 3 == 0 {
        v.to_vec()
    } else {
        v.iter().rev().enumerate().filter(|(i, _)| mask & (1 << (i % 20)) != 0).map(|(_, x)| *x).collect()
    };
    match order % 4 {
        0 => (),
        1 => out.reverse(),
        n => {
            let k = out.len().max(1);
            out.rotate_left((n as usize * 3 + mask as usize) % k);
        }
    }
    out
}

impl Side {
    /// registers what a step has created
    async fn register(&mut self, gl: &mut Vec<GL>) -> R<()> {
        while self.global.len() < self.w.layers.len() {
            let ix = self.global.len();
            let l = self.w.layer(ix).await?;
            let s = snap(&self.w, &l, ix, "new layer").await?;
            snap_matches_model(&self.w, &l, &s, ix, "new layer").await?;
            let r = &self.w.layers[ix];
            gl.push(GL { name: r.name, parent: r.m.parent.map(|p| self.global[p]), m: r.m.clone(), snap: s, how: r.how });
            self.present.insert(gl.len() - 1);
            self.local.insert(gl.len() - 1, ix);
            self.global.push(gl.len() - 1);
        }
        Ok(())
    }
    fn available(&self, gl: &[GL], g: usize) -> bool {
        let mut cur = Some(g);
        while let Some(c) = cur {
            if !self.present.contains(&c) {
                return false;
            }
            cur = gl[c].parent;
        }
        true
    }
    /// layers that have become complete by an import
    fn absorb(&mut self, gl: &[GL]) -> Vec<usize> {
        let mut fresh = vec![];
        for g in 0..gl.len() {
            if self.present.contains(&g) && !self.local.contains_key(&g) && self.available(gl, g) {
                let mut m = gl[g].m.clone();
                m.parent = gl[g].parent.map(|p| self.local[&p]);
                self.w.layers.push(RL { m, name: gl[g].name, handle: None, rolled: 0, how: gl[g].how });
                self.local.insert(g, self.w.layers.len() - 1);
                self.global.push(g);
                fresh.push(g);
            }
        }
        fresh
    }
    async fn compare(&mut self, gl: &[GL], which: &[usize], what: &str, ctx: &mut Ctx) -> R<()> {
        for &g in which {
            let ix = self.local[&g];
            let l = self.w.layer(ix).await?;
            let s = snap(&self.w, &l, ix, what).await.map_err(|f| f.ctx(format!("layer #{} ({})", g, gl[g].how)))?;
            compare_snaps(&gl[g].snap, &s, what).map_err(|f| f.ctx(format!("layer #{} ({})", g, gl[g].how)))?;
            ctx.count("layers-compared", 1);
        }
        Ok(())
    }
    async fn listing(&self, gl: &[GL], what: &str) -> R<()> {
        let v = io("layers", self.w.base.raw().layers().await)?;
        let set: BTreeSet<Name> = v.iter().cloned().collect();
        for &g in &self.present {
            if !set.contains(&gl[g].name) {
                return bad("missing", format!("{}: layer #{} is not listed", what, g));
            }
        }
        for (g, l) in gl.iter().enumerate() {
            if !self.present.contains(&g) && set.contains(&l.name) {
                return bad("unrequested", format!("{}: layer #{} is there, but was never made or imported here", what, g));
            }
        }
        let extra = set.len() - self.present.len();
        if extra > self.w.rollups as usize + self.w.abandoned.len() {
            return bad("unrequested", format!("{}: {} unknown layers are listed, after {} rollups", what, extra, self.w.rollups));
        }
        Ok(())
    }
}

pub struct C09;

impl Prop for C09 {
    type Case = PCase;
    const ID: &'static str = "C09";
    const RULE: &'static str = "distinct scripts in which at least one layer with an ancestor became available in another store by an import, and an import or export covered only part of what it could";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 2000 } else { 40000 }
    }
    fn strategy(t: Tier) -> BoxedStrategy<PCase> {
        let w = Weights { commit: 8, abandon: 1, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 1, forget: 1, transfer: 0, adopt: 1 };
        crate::gen::sized(if t == Tier::Quick { Tier::Quick } else { Tier::Thorough }, move |s| {
            let s = Size { bulk: s.bulk.min(800), ..s };
            let n = if s.nn > 100 { 8 } else { 22 };
            let op = prop_oneof![
                5 => (prop_oneof![2 => Just(0u8), 1 => 1u8..3], step(s, &w)).prop_map(|(a, b)| POp::Step(a, b)),
                3 => (0u8..3, any::<u32>(), 0u8..4).prop_map(|(a, b, c)| POp::Export(a, b, c)),
                5 => (0u8..3, 0u8..5, any::<u32>(), 0u8..4, 0u8..8).prop_map(|(a, b, c, d, e)| POp::Import(a, b, c, d, e)),
                1 => (0u8..3, any::<u32>()).prop_map(|(a, b)| POp::ExportAbsent(a, b)),
                1 => (0u8..3, any::<u32>()).prop_map(|(a, b)| POp::Look(a, b)),
            ];
            let plain = prop::collection::vec(commit(s).prop_map(|c| POp::Step(0, Step::Commit(c))), 2..6).boxed();
            // a chain of layers, and layers made for rollups of it that go into packs themselves
            let chain = prop::collection::vec(commit_with(s, Just(Some(0u32)).boxed()).prop_map(|c| POp::Step(0, Step::Commit(c))), 3..6);
            let near = || prop_oneof![3 => Just(0u32), 1 => 0u32..4];
            let roll = prop_oneof![
                3 => (near(), 1u32..5).prop_map(|(l, u)| Step::RollupUpto(l, u)),
                2 => (near(), 1u32..5).prop_map(|(l, u)| Step::ImpreciseUpto(l, u)),
                1 => near().prop_map(Step::Rollup),
            ];
            let rolled = (chain, prop::collection::vec(roll, 1..3), 0u8..5, any::<u32>(), 0u8..4)
                .prop_map(|(mut v, r, to, mask, e)| {
                    for r in r {
                        v.push(POp::Step(0, r));
                        v.push(POp::Step(0, Step::Adopt(0)));
                    }
                    v.push(POp::Export(0, if to < 4 { u32::MAX } else { mask }, 0));
                    v.push(POp::Import(0, 1, if to < 4 { u32::MAX } else { mask }, e, 0));
                    v
                })
                .boxed();
            let start = prop_oneof![3 => plain, 1 => rolled];
            (voc(s), prop::array::uniform3(0u8..4), any::<bool>(), start, prop::collection::vec(op, 2..n))
                .prop_map(|(voc, kinds, keep, mut a, b)| {
                    a.extend(b);
                    PCase { voc, kinds, keep, ops: a }
                })
                .boxed()
        })
    }
    fn run(c: &PCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            let mut sides: Vec<Side> = vec![];
            for k in c.kinds {
                let mut w = World::new(Kind::of(k), c.voc, ctx);
                w.keep = c.keep;
                w.max_layers = 16;
                w.track = c.ops.iter().any(|o| matches!(o, POp::Step(_, Step::Adopt(_))));
                sides.push(Side { w, present: Default::default(), local: Default::default(), global: vec![] });
            }
            let mut gl: Vec<GL> = vec![];
            let mut packs: Vec<Pack> = vec![];
            let (mut partial, mut moved) = (false, false);
            for op in &c.ops {
                match op {
                    POp::Step(i, s) => {
                        let side = &mut sides[*i as usize % 3];
                        side.w.apply(s, ctx).await?;
                        side.register(&mut gl).await?;
                    }
                    POp::Export(i, mask, order) => {
                        let mut from = *i as usize % 3;
                        if sides[from].present.is_empty() {
                            from = (0..3).max_by_key(|i| sides[*i].present.len()).unwrap();
                        }
                        let side = &sides[from];
                        let all: Vec<usize> = side.present.iter().cloned().collect();
                        let which = arrange(&all, *mask, *order);
                        if which.len() < all.len() {
                            partial = true;
                            ctx.label("partial-export");
                        }
                        let names: Vec<Name> = which.iter().map(|g| gl[*g].name).collect();
                        let bytes = io("export_layers", on_mt(side.w.store.export_layers(Box::new(names.into_iter()))))?;
                        let parents = match pack_layer_parents(&bytes[..]) {
                            Ok(p) => p,
                            Err(e) => return bad("parents", format!("pack_layer_parents fails on an exported pack: {}", e)),
                        };
                        let want: HashMap<Name, Option<Name>> = which.iter().map(|g| (gl[*g].name, gl[*g].parent.map(|p| gl[p].name))).collect();
                        if parents != want {
                            return bad("parents", format!("pack_layer_parents gives {} layers {:?}, expected {:?}", parents.len(), parents, want));
                        }
                        packs.push(Pack { bytes, layers: which, from });
                        ctx.label("op:export");
                    }
                    POp::ExportAbsent(i, n) => {
                        let side = &sides[*i as usize % 3];
                        let mut names: Vec<Name> = side.present.iter().take(2).map(|g| gl[*g].name).collect();
                        names.push(absent_name(*n));
                        if on_mt(side.w.store.export_layers(Box::new(names.into_iter()))).is_ok() {
                            return bad("export-absent", "exporting a layer that does not exist reports success".into());
                        }
                        ctx.label("op:export-absent");
                    }
                    POp::Import(n, j, mask, order, extra) => {
                        if packs.is_empty() {
                            continue;
                        }
                        let pk = &packs[packs.len() - 1 - *n as usize % packs.len()];
                        // mostly into another store
                        let to = if *j == 0 { pk.from } else { (pk.from + *j as usize) % 3 };
                        let side = &mut sides[to];
                        let which = arrange(&pk.layers, *mask, *order);
                        let mut names: Vec<Name> = which.iter().map(|g| gl[*g].name).collect();
                        let mut others: Vec<usize> = vec![];
                        if extra & 1 != 0 {
                            names.push(absent_name(*mask));
                            ctx.label("import-of-absent-id");
                        }
                        if extra & 2 != 0 {
                            // ids of layers which exist somewhere, but not in this pack
                            others = (0..gl.len()).filter(|g| !pk.layers.contains(g)).collect();
                            for g in others.iter() {
                                names.insert(*g % (names.len() + 1), gl[*g].name);
                            }
                            if others.iter().any(|g| side.present.contains(g)) {
                                ctx.label("import-names-present-layer-not-in-pack");
                            }
                        }
                        if extra & 4 != 0 && !names.is_empty() {
                            names.push(names[0]);
                            ctx.label("import-repeats-an-id");
                        }
                        if which.len() < pk.layers.len() {
                            partial = true;
                            ctx.label("partial-import");
                        }
                        if which.iter().any(|g| side.present.contains(g)) {
                            ctx.label("import-of-present-layer");
                        }
                        io("import_layers", on_mt(side.w.store.import_layers(&pk.bytes, Box::new(names.into_iter()))))?;
                        side.present.extend(which.iter().cloned());
                        let fresh = side.absorb(&gl);
                        if fresh.len() < which.len() && which.iter().any(|g| !side.local.contains_key(g)) {
                            ctx.label("imported-before-its-parent");
                        }
                        if fresh.iter().any(|g| gl[*g].parent.is_some()) {
                            moved = true;
                        }
                        side.listing(&gl, "after import").await?;
                        side.compare(&gl, &fresh, "imported layer", ctx).await?;
                        for g in others {
                            if !side.present.contains(&g) {
                                let raw = side.w.base.raw();
                                if io("get_layer", raw.get_layer(gl[g].name).await)?.is_some() {
                                    return bad("phantom", format!("layer #{} was requested but not in the pack, and is found now", g));
                                }
                            }
                        }
                        if extra & 1 != 0 {
                            match side.w.store.get_layer_from_id(absent_name(*mask)).await {
                                Ok(None) => (),
                                Ok(Some(_)) => return bad("phantom", "a requested id which is not in the pack is found as a layer".into()),
                                Err(e) => return bad("phantom", format!("looking up a requested id which is not in the pack fails: {:?} {}", e.kind(), e)),
                            }
                        }
                        ctx.label("op:import");
                        ctx.label(&format!("import into {:?}", Kind::of(c.kinds[to])));
                    }
                    POp::Look(j, n) => {
                        let side = &sides[*j as usize % 3];
                        let v: Vec<usize> = side.present.iter().filter(|g| !side.local.contains_key(g)).cloned().collect();
                        if !v.is_empty() {
                            let _ = side.w.store.get_layer_from_id(gl[v[*n as usize % v.len()]].name).await;
                            ctx.label("lookup-of-layer-without-its-parent");
                        }
                    }
                }
            }
            for (i, side) in sides.iter_mut().enumerate() {
                let all: Vec<usize> = side.global.clone();
                side.compare(&gl, &all, &format!("store {}", i), ctx).await?;
                side.w.reopen();
                side.listing(&gl, &format!("store {} reopened", i)).await?;
                side.compare(&gl, &all, &format!("store {} reopened", i), ctx).await?;
                for g in all {
                    let ix = side.local[&g];
                    if g % 3 == 0 {
                        let l = side.w.layer(ix).await?;
                        check_everything(&side.w, &l, ix, &format!("store {}", i), 8).await?;
                    }
                }
            }
            if partial && moved {
                ctx.nontrivial = true;
            }
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- C20

/// One entry of a tar archive, as raw as needed.
#[derive(Clone, Debug)]
pub struct Ent {
    path: Vec<u8>,
    kind: u8,
    content: Vec<u8>,
    /// the size claimed in the header, if not that of the content
    claim: Option<u64>,
    /// which layer it belongs to
    layer: Option<usize>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PathKind {
    Sub,
    Up,
    UpInside,
    Abs,
    Bare,
    Unknown,
    RollupFile,
    Upper,
    NonAscii,
    NonUtf8,
    Empty,
    Dot,
    DotSlash,
    Long,
    Dots,
    ParentOfOther,
    Plus,
    LabelFile,
}
const PATHS: [PathKind; 18] = [
    PathKind::Sub, PathKind::Up, PathKind::UpInside, PathKind::Abs, PathKind::Bare, PathKind::Unknown, PathKind::RollupFile, PathKind::Upper, PathKind::NonAscii,
    PathKind::NonUtf8, PathKind::Empty, PathKind::Dot, PathKind::DotSlash, PathKind::Long, PathKind::Dots, PathKind::ParentOfOther, PathKind::Plus, PathKind::LabelFile,
];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Content {
    Empty,
    Short,
    Zeros(u16),
    Noise(u16),
    OwnName,
    OtherName,
    NotHex,
    NonAsciiName,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Mut {
    // on entries
    Extra(PathKind, u8, Content, u32),
    Drop(u32),
    DropLayerTail(u32, u32),
    SetContent(u32, Content),
    CutContent(u32, u16),
    FlipContent(u32, u32, u8),
    Rename(u32, PathKind),
    Type(u32, u8),
    Claim(u32, u64),
    Dup(u32),
    Swap(u32, u32),
    ParentContent(u32, Content),
    // on the tar
    TarCut(u16),
    TarFlip(u32, u8),
    TarBlockDel(u32),
    TarBlockDup(u32),
    // on the gzip stream
    GzCut(u16),
    GzFlip(u32, u8),
    GzInsert(u32, u8),
    GzDelete(u32, u16),
    GzAppend(u8),
    Replace(u32, u16),
    NoGzip,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct MCase {
    pub voc: Voc,
    pub kinds: [u8; 2],
    pub keep: bool,
    pub source: Vec<Step>,
    /// how many of the source's oldest layers the target has already
    pub shared: u8,
    pub own: Vec<Step>,
    pub mask: u32,
    pub muts: Vec<Mut>,
    pub request: u32,
    pub extra: u8,
}

fn noise(seed: u32, n: usize) -> Vec<u8> {
    let mut x = seed as u64 * 2 + 1;
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 40) as u8
        })
        .collect()
}

fn content(c: Content, seed: u32, names: &[Name], layer: usize) -> Vec<u8> {
    match c {
        Content::Empty => vec![],
        Content::Short => b"abc".to_vec(),
        Content::Zeros(n) => vec![0; n as usize % 3000],
        Content::Noise(n) => noise(seed, n as usize % 3000),
        Content::OwnName => hexname(names[layer % names.len()]).into_bytes(),
        Content::OtherName => hexname(names[(layer + 1) % names.len()]).into_bytes(),
        Content::NotHex => vec![b'z'; 40],
        Content::NonAsciiName => "é".repeat(20).into_bytes(),
    }
}

fn hostile_path(k: PathKind, id: &str, scratch: &Path, file: &str) -> Vec<u8> {
    let s = match k {
        PathKind::Sub => format!("{}/sub/{}", id, file),
        PathKind::Up => format!("../evil-{}", file),
        PathKind::UpInside => format!("{}/../../evil", id),
        PathKind::Abs => format!("{}/evil-abs", scratch.display()),
        PathKind::Bare => id.to_string(),
        PathKind::Unknown => format!("{}/unknown.bin", id),
        PathKind::RollupFile => format!("{}/rollup.hex", id),
        PathKind::Upper => format!("{}/{}", id.to_uppercase(), file),
        PathKind::NonAscii => format!("{}/{}", "é".repeat(20), file),
        PathKind::NonUtf8 => {
            let mut v = id.as_bytes().to_vec();
            v.extend_from_slice(b"/\xff\xfe.x");
            return v;
        }
        PathKind::Empty => String::new(),
        PathKind::Dot => ".".into(),
        PathKind::DotSlash => format!("./{}/{}", id, file),
        PathKind::Long => format!("{}/{}", id, "x".repeat(58)),
        PathKind::Dots => format!("{}/..", id),
        PathKind::ParentOfOther => format!("{}/parent.hex", hexname([5, 5, 5, 5, 5])),
        PathKind::Plus => format!("+{}/{}", &id[1..], file),
        PathKind::LabelFile => format!("{}/../../x.label", id),
    };
    s.into_bytes()
}

fn tar_bytes(ents: &[Ent]) -> Vec<u8> {
    let mut out = vec![];
    for e in ents {
        let mut h = [0u8; 512];
        let n = e.path.len().min(100);
        h[..n].copy_from_slice(&e.path[..n]);
        h[100..108].copy_from_slice(b"0000644\0");
        h[108..116].copy_from_slice(b"0000000\0");
        h[116..124].copy_from_slice(b"0000000\0");
        let size = e.claim.unwrap_or(e.content.len() as u64);
        if size >= 1 << 33 {
            h[124] = 0x80;
            h[128..136].copy_from_slice(&size.to_be_bytes());
        } else {
            h[124..136].copy_from_slice(format!("{:011o}\0", size).as_bytes());
        }
        h[136..148].copy_from_slice(b"00000000000\0");
        h[148..156].copy_from_slice(b"        ");
        h[156] = e.kind;
        if matches!(e.kind, b'1' | b'2') {
            h[157..168].copy_from_slice(b"/etc/passwd");
        }
        h[257..265].copy_from_slice(b"ustar  \0");
        let sum: u32 = h.iter().map(|b| *b as u32).sum();
        h[148..156].copy_from_slice(format!("{:06o}\0 ", sum).as_bytes());
        out.extend_from_slice(&h);
        out.extend_from_slice(&e.content);
        while out.len() % 512 != 0 {
            out.push(0);
        }
    }
    out.extend_from_slice(&[0; 1024]);
    out
}

fn unpack(bytes: &[u8]) -> R<Vec<Ent>> {
    let mut a = tar::Archive::new(flate2::read::GzDecoder::new(bytes));
    let mut v = vec![];
    for e in io("read pack", a.entries())? {
        let mut e = io("read pack", e)?;
        let path = e.path_bytes().to_vec();
        let kind = e.header().as_bytes()[156];
        let mut content = vec![];
        io("read pack", e.read_to_end(&mut content))?;
        v.push(Ent { path, kind, content, claim: None, layer: None });
    }
    Ok(v)
}

fn files_of(dir: &Path, prefix: String, out: &mut BTreeSet<String>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let n = format!("{}/{}", prefix, e.file_name().to_string_lossy());
            if e.path().is_dir() {
                files_of(&e.path(), n, out);
            } else {
                out.insert(n);
            }
        }
    }
}

/// Damages a pack. Returns the bytes, which layers may have been altered, and whether all may have been.
fn damage(c: &MCase, pack: &[u8], names: &[Name], scratch: &Path, ctx: &mut Ctx) -> R<(Vec<u8>, BTreeSet<usize>, bool)> {
    let mut ents = unpack(pack)?;
    let mut touched: BTreeSet<usize> = BTreeSet::new();
    let mut all = false;
    for e in ents.iter_mut() {
        e.layer = names.iter().position(|n| e.path.starts_with(hexname(*n).as_bytes()));
    }
    let mut edited = false;
    for m in &c.muts {
        let n = ents.len();
        let at = |i: &u32| *i as usize % n.max(1);
        edited = true;
        if n == 0 {
            break;
        }
        let mut hit = |i: usize, ents: &[Ent]| match ents[i].layer {
            Some(l) => {
                touched.insert(l);
            }
            None => (),
        };
        match m {
            Mut::Extra(k, kind, ct, pos) => {
                let l = *pos as usize % names.len();
                let path = hostile_path(*k, &hexname(names[l]), scratch, "parent.hex");
                let kind = [b'0', b'0', b'0', b'5', b'2', b'1', b'L', b'x', b'g', b'S', 0][*kind as usize % 11];
                // extension headers rename the entry that follows
                if matches!(kind, b'L' | b'x' | b'g' | b'S') {
                    all = true;
                }
                let p = *pos as usize / 7 % (n + 1);
                ents.insert(p, Ent { path, kind, content: content(*ct, *pos, names, l), claim: None, layer: None });
                ctx.label(&format!("extra entry {:?}", k));
            }
            Mut::Drop(i) => {
                hit(at(i), &ents);
                ents.remove(at(i));
                ctx.label("entry dropped");
            }
            Mut::DropLayerTail(l, keep) => {
                let l = *l as usize % names.len();
                let mut seen = 0;
                ents.retain(|e| {
                    if e.layer == Some(l) {
                        seen += 1;
                        seen <= keep % 40
                    } else {
                        true
                    }
                });
                touched.insert(l);
                ctx.label("layer cut short");
            }
            Mut::SetContent(i, ct) => {
                hit(at(i), &ents);
                let l = ents[at(i)].layer.unwrap_or(0);
                ents[at(i)].content = content(*ct, *i, names, l);
                ctx.label("content replaced");
            }
            Mut::ParentContent(i, ct) => {
                let ps: Vec<usize> = (0..n).filter(|j| ents[*j].path.ends_with(b"/parent.hex")).collect();
                if let Some(j) = ps.get(*i as usize % ps.len().max(1)) {
                    hit(*j, &ents);
                    let l = ents[*j].layer.unwrap_or(0);
                    ents[*j].content = content(*ct, *i, names, l);
                    ctx.label("parent replaced");
                }
            }
            Mut::CutContent(i, k) => {
                hit(at(i), &ents);
                let e = &mut ents[at(i)];
                let len = e.content.len();
                e.content.truncate(len * (*k as usize) / 65536);
                ctx.label("content cut");
            }
            Mut::FlipContent(i, p, x) => {
                hit(at(i), &ents);
                let e = &mut ents[at(i)];
                if !e.content.is_empty() {
                    let k = *p as usize % e.content.len();
                    e.content[k] ^= x | 1;
                }
                ctx.label("content altered");
            }
            Mut::Rename(i, k) => {
                hit(at(i), &ents);
                let l = ents[at(i)].layer.unwrap_or(0);
                ents[at(i)].path = hostile_path(*k, &hexname(names[l]), scratch, "parent.hex");
                ctx.label("entry renamed");
            }
            Mut::Type(i, k) => {
                hit(at(i), &ents);
                ents[at(i)].kind = [b'5', b'2', b'1', b'L', b'x', b'g', b'S', b'3', b'7', b'K'][*k as usize % 10];
                all = true;
                ctx.label("entry type changed");
            }
            Mut::Claim(i, s) => {
                ents[at(i)].claim = Some(*s);
                all = true;
                ctx.label("wrong size in header");
            }
            Mut::Dup(i) => {
                hit(at(i), &ents);
                let e = ents[at(i)].clone();
                ents.push(e);
                ctx.label("entry repeated");
            }
            Mut::Swap(i, j) => {
                let (a, b) = (at(i), at(j));
                ents.swap(a, b);
                ctx.label("entries reordered");
            }
            _ => {
                edited = false;
            }
        }
    }
    let _ = edited;
    let mut tar = tar_bytes(&ents);
    for m in &c.muts {
        let n = tar.len().max(1);
        match m {
            Mut::TarCut(k) => {
                tar.truncate(n * (*k as usize) / 65536);
                all = true;
                ctx.label("tar cut");
            }
            Mut::TarFlip(p, x) => {
                if !tar.is_empty() {
                    tar[*p as usize % n] ^= x | 1;
                }
                all = true;
                ctx.label("tar altered");
            }
            Mut::TarBlockDel(p) => {
                let b = *p as usize % (n / 512 + 1) * 512;
                if b + 512 <= tar.len() {
                    tar.drain(b..b + 512);
                }
                all = true;
                ctx.label("tar block removed");
            }
            Mut::TarBlockDup(p) => {
                let b = *p as usize % (n / 512 + 1) * 512;
                if b + 512 <= tar.len() {
                    let blk = tar[b..b + 512].to_vec();
                    for (i, x) in blk.into_iter().enumerate() {
                        tar.insert(b + i, x);
                    }
                }
                all = true;
                ctx.label("tar block repeated");
            }
            _ => (),
        }
    }
    let mut gz = if c.muts.contains(&Mut::NoGzip) {
        all = true;
        ctx.label("not compressed");
        tar
    } else {
        let mut enc = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
        enc.write_all(&tar).unwrap();
        enc.finish().unwrap()
    };
    for m in &c.muts {
        let n = gz.len().max(1);
        match m {
            Mut::GzCut(k) => {
                gz.truncate(n * (*k as usize) / 65536);
                all = true;
                ctx.label("pack cut");
            }
            Mut::GzFlip(p, x) => {
                if !gz.is_empty() {
                    gz[*p as usize % n] ^= x | 1;
                }
                all = true;
                ctx.label("pack altered");
            }
            Mut::GzInsert(p, k) => {
                let at = (*p as usize % n).min(gz.len());
                for b in noise(*p, *k as usize) {
                    gz.insert(at, b);
                }
                all = true;
                ctx.label("pack altered");
            }
            Mut::GzDelete(p, k) => {
                let at = (*p as usize % n).min(gz.len());
                let to = (at + *k as usize % 600).min(gz.len());
                gz.drain(at..to);
                all = true;
                ctx.label("pack altered");
            }
            Mut::GzAppend(k) => {
                gz.extend(noise(*k as u32, *k as usize));
                ctx.label("pack extended");
            }
            Mut::Replace(s, k) => {
                gz = noise(*s, *k as usize % 4000);
                all = true;
                ctx.label("random bytes");
            }
            _ => (),
        }
    }
    Ok((gz, touched, all))
}

fn mutation() -> BoxedStrategy<Mut> {
    let path = || prop::sample::select(PATHS.to_vec());
    let ct = || {
        prop_oneof![
            Just(Content::Empty),
            Just(Content::Short),
            any::<u16>().prop_map(Content::Zeros),
            any::<u16>().prop_map(Content::Noise),
            Just(Content::OwnName),
            Just(Content::OtherName),
            Just(Content::NotHex),
            Just(Content::NonAsciiName)
        ]
    };
    let claim = prop_oneof![
        Just(0u64),
        0u64..2000,
        Just(u64::MAX),
        Just(1 << 40),
        Just((1u64 << 62) + 1),
        Just((1u64 << 63) - 1),
        Just(1u64 << 31)
    ];
    prop_oneof![
        6 => (path(), 0u8..11, ct(), any::<u32>()).prop_map(|(a, b, c, d)| Mut::Extra(a, b, c, d)),
        2 => any::<u32>().prop_map(Mut::Drop),
        2 => (any::<u32>(), 0u32..40).prop_map(|(a, b)| Mut::DropLayerTail(a, b)),
        2 => (any::<u32>(), ct()).prop_map(|(a, b)| Mut::SetContent(a, b)),
        2 => (any::<u32>(), ct()).prop_map(|(a, b)| Mut::ParentContent(a, b)),
        1 => (any::<u32>(), any::<u16>()).prop_map(|(a, b)| Mut::CutContent(a, b)),
        1 => (any::<u32>(), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Mut::FlipContent(a, b, c)),
        3 => (any::<u32>(), path()).prop_map(|(a, b)| Mut::Rename(a, b)),
        2 => (any::<u32>(), 0u8..10).prop_map(|(a, b)| Mut::Type(a, b)),
        2 => (any::<u32>(), claim).prop_map(|(a, b)| Mut::Claim(a, b)),
        1 => any::<u32>().prop_map(Mut::Dup),
        1 => (any::<u32>(), any::<u32>()).prop_map(|(a, b)| Mut::Swap(a, b)),
        3 => any::<u16>().prop_map(Mut::TarCut),
        3 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mut::TarFlip(a, b)),
        1 => any::<u32>().prop_map(Mut::TarBlockDel),
        1 => any::<u32>().prop_map(Mut::TarBlockDup),
        4 => any::<u16>().prop_map(Mut::GzCut),
        4 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mut::GzFlip(a, b)),
        1 => (any::<u32>(), 1u8..20).prop_map(|(a, b)| Mut::GzInsert(a, b)),
        1 => (any::<u32>(), 1u16..600).prop_map(|(a, b)| Mut::GzDelete(a, b)),
        1 => (1u8..60).prop_map(Mut::GzAppend),
        1 => (any::<u32>(), any::<u16>()).prop_map(|(a, b)| Mut::Replace(a, b)),
        1 => Just(Mut::NoGzip),
    ]
    .boxed()
}

pub struct C20;

impl Prop for C20 {
    type Case = MCase;
    const ID: &'static str = "C20";
    const RULE: &'static str = "distinct cases in which the damaged pack was imported with at least one id that the intact pack has and the target has not, into a store that had layers";
    fn cases(t: Tier) -> u32 {
        if t == Tier::Quick { 5000 } else { 120000 }
    }
    fn assumptions() -> Vec<String> {
        vec!["contents of a layer that was altered inside of an otherwise well-formed pack are not judged: import_layers documents that it does not validate them".into()]
    }
    fn strategy(_t: Tier) -> BoxedStrategy<MCase> {
        let s = Size { nn: 6, np: 3, nv: 5, items: 6, bulk: 0 };
        let w = Weights { commit: 6, abandon: 0, rollup: 1, rollup_upto: 1, imprecise: 0, squash: 1, squash_upto: 0, merge: 0, reopen: 0, forget: 0, transfer: 0, adopt: 0 };
        (
            voc(s),
            prop::array::uniform2(0u8..4),
            any::<bool>(),
            history(s, &w, 4),
            0u8..4,
            prop::collection::vec(commit(s).prop_map(Step::Commit), 1..3),
            any::<u32>(),
            prop_oneof![6 => prop::collection::vec(mutation(), 1..2), 3 => prop::collection::vec(mutation(), 2..5)],
            any::<u32>(),
            0u8..4,
        )
            .prop_map(|(voc, kinds, keep, source, shared, own, mask, muts, request, extra)| MCase { voc, kinds, keep, source, shared, own, mask, muts, request, extra })
            .boxed()
    }
    fn run(c: &MCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(async {
            // the source, and its snapshots
            let mut src = World::new(Kind::of(c.kinds[0]), c.voc, ctx);
            src.keep = c.keep;
            src.max_layers = 8;
            for s in &c.source {
                src.apply(s, ctx).await?;
            }
            let mut sw = Watch::new();
            sw.all(&mut src, "source", ctx).await?;
            let n = src.layers.len();
            let names: Vec<Name> = src.layers.iter().map(|l| l.name).collect();
            // the target, with some of these layers and some of its own
            let scratch = ctx.new_dir();
            let tdir = scratch.join("store");
            std::fs::create_dir_all(&tdir).unwrap();
            let kind = Kind::of(c.kinds[1]);
            let base = match kind {
                Kind::Mem => Base::new(Kind::Mem, ctx),
                k => Base::Disk(k, tdir.clone()),
            };
            let mut tw = World { voc: c.voc, store: base.open(), base, layers: vec![], abandoned: vec![], rollups: 0, keep: c.keep, max_layers: 40 , tmp: None, track: false, made: vec![]};
            let shared = (c.shared as usize).min(n);
            let first: Vec<Name> = names[..shared].to_vec();
            if shared > 0 {
                let p = io("export_layers", on_mt(src.store.export_layers(Box::new(first.clone().into_iter()))))?;
                io("import_layers", on_mt(tw.store.import_layers(&p, Box::new(first.into_iter()))))?;
                for ix in 0..shared {
                    tw.layers.push(RL { m: src.layers[ix].m.clone(), name: names[ix], handle: None, rolled: 0, how: "imported" });
                }
            }
            for s in &c.own {
                tw.apply(s, ctx).await?;
            }
            let g = io("create", tw.store.create("main").await)?;
            let last = tw.layers.len() - 1;
            let l = tw.layer(last).await?;
            io("force_set_head", g.force_set_head(&l).await)?;
            let mut watch = Watch::new();
            watch.all(&mut tw, "target before the import", ctx).await?;
            let before: BTreeSet<Name> = io("layers", tw.base.raw().layers().await)?.into_iter().collect();
            let mut disk = BTreeSet::new();
            files_of(&scratch, String::new(), &mut disk);

            // the pack and its damage
            let all: Vec<usize> = (0..n).collect();
            let packed = arrange(&all, c.mask, 0);
            let pnames: Vec<Name> = packed.iter().map(|i| names[*i]).collect();
            let good = io("export_layers", on_mt(src.store.export_layers(Box::new(pnames.clone().into_iter()))))?;
            if pnames.is_empty() {
                return Ok(());
            }
            let (bytes, touched, alltouched) = damage(c, &good, &pnames, &scratch, ctx)?;
            let _ = pack_layer_parents(&bytes[..]);

            let wanted = arrange(&packed, c.request, 1);
            let mut ids: Vec<Name> = wanted.iter().map(|i| names[*i]).collect();
            if c.extra & 1 != 0 {
                ids.push(absent_name(c.request));
            }
            if c.extra & 2 != 0 {
                // a layer of the target's own
                ids.push(tw.layers[last].name);
            }
            let new: Vec<usize> = wanted.iter().cloned().filter(|i| !before.contains(&names[*i])).collect();
            let r = on_mt(tw.store.import_layers(&bytes, Box::new(ids.clone().into_iter())));
            ctx.label(if r.is_ok() { "accepted" } else { "rejected" });
            if !new.is_empty() && tw.layers.len() > 1 {
                ctx.nontrivial = true;
            }
            // labels and layers that were there
            let head = io("head", g.head().await)?.map(|l| l.name());
            if head != Some(tw.layers[last].name) {
                return bad("label", "the head of a label changed".into());
            }
            watch.all(&mut tw, "target after the import", ctx).await?;
            let after: BTreeSet<Name> = io("layers", tw.base.raw().layers().await)?.into_iter().collect();
            if let Some(x) = before.difference(&after).next() {
                return bad("layer-lost", format!("layer {} is not listed any more", hexname(*x)));
            }
            for x in after.difference(&before) {
                if !ids.contains(x) {
                    return bad("unrequested", format!("layer {} appeared without being requested", hexname(*x)));
                }
                if r.is_err() {
                    return bad("half-imported", format!("the import failed with {:?}, but layer {} is listed", r.as_ref().err(), hexname(*x)));
                }
                if !pnames.contains(x) {
                    return bad("phantom", format!("layer {} is listed, but was not in the pack", hexname(*x)));
                }
            }
            if r.is_err() {
                for i in &new {
                    match tw.store.get_layer_from_id(names[*i]).await {
                        Ok(None) => (),
                        o => return bad("half-imported", format!("the import failed, but looking up a requested layer gives {:?}", o.map(|x| x.map(|_| "a layer")))),
                    }
                }
            }
            let mut disk2 = BTreeSet::new();
            files_of(&scratch, String::new(), &mut disk2);
            for f in disk2.difference(&disk) {
                let ok = ids.iter().any(|i| {
                    let h = hexname(*i);
                    let known = terminus_store_files();
                    f == &format!("/store/{}/{}.larch", &h[..3], h) || f.strip_prefix(&format!("/store/{}/{}/", &h[..3], h)).map_or(false, |x| known.contains(x))
                });
                if !ok {
                    return bad("stray-file", format!("the import wrote {}", f));
                }
            }
            if let Some(f) = disk.difference(&disk2).next() {
                return bad("file-lost", format!("the import removed {}", f));
            }
            // the store goes on working, and takes the intact pack if it has refused the damaged one
            let mut retry = false;
            if r.is_err() {
                io("import_layers (intact pack)", on_mt(tw.store.import_layers(&good, Box::new(ids.clone().into_iter()))))?;
                retry = true;
            }
            let mut have: BTreeMap<usize, usize> = (0..shared).map(|i| (i, i)).collect();
            for i in 0..n {
                let exact = retry || (!alltouched && !packed.iter().position(|p| *p == i).map_or(false, |k| touched.contains(&k)));
                if wanted.contains(&i) && exact && !have.contains_key(&i) {
                    let parent = src.layers[i].m.parent;
                    if parent.map_or(true, |p| have.contains_key(&p)) {
                        let mut m = src.layers[i].m.clone();
                        m.parent = parent.map(|p| have[&p]);
                        tw.layers.push(RL { m, name: names[i], handle: None, rolled: 0, how: "imported" });
                        have.insert(i, tw.layers.len() - 1);
                        watch.snaps.push(sw.snaps[i].clone());
                        ctx.label(if retry { "intact pack imported after a rejection" } else { "intact layer of a damaged pack" });
                    }
                }
            }
            watch.all(&mut tw, "target after an accepted import", ctx).await?;
            tw.reopen();
            watch.all(&mut tw, "target reopened", ctx).await?;
            let g = io("open", tw.store.open("main").await)?;
            match g {
                Some(g) if io("head", g.head().await)?.map(|l| l.name()) == Some(tw.layers[last].name) => (),
                _ => return bad("label", "the label is lost or its head changed after reopening".into()),
            }
            let c2 = Commit { parent: Some(0), items: vec![], bulk: None };
            tw.apply(&Step::Commit(c2), ctx).await?;
            Ok(())
        })
    }
}

fn terminus_store_files() -> &'static BTreeSet<&'static str> {
    static S: std::sync::OnceLock<BTreeSet<&'static str>> = std::sync::OnceLock::new();
    S.get_or_init(|| terminus_store::storage::consts::FILENAME_ENUM_MAP.keys().cloned().collect())
}
