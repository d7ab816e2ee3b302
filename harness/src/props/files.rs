//! C22: the files of a layer come back exactly as they were written, whole or in part,
//! on every kind of storage.
use crate::runner::*;
use bytes::Bytes;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::io;
use std::path::PathBuf;
use std::pin::Pin;
use std::task::{Context, Poll};
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::{LayerFileEnum, FILENAME_ENUM_MAP};
use terminus_store::storage::directory::DirectoryLayerStore;
use terminus_store::storage::memory::MemoryLayerStore;
use terminus_store::storage::{bytes_to_name, name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWriteExt, ReadBuf};

type Id = [u32; 5];

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub struct W {
    pub file: u8,
    pub size: u32,
    pub fill: u8,
    /// how much is written at a time
    pub chunk: u32,
    pub flush: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Create(u8),
    /// create a layer that is there already
    Again(u8),
    /// files written side by side
    Write(u8, Vec<W>),
    Parent(u8, u8),
    Finalize(u8),
    /// all the files of a layer at once; again if it is there already
    Store(u8, Vec<W>, Option<u8>),
    Rollup(u8, u8),
    /// two readers side by side: layer, file, where it starts (of 255ths), buffer size
    Read([(u8, u8, u8, u16); 2]),
    /// keep a handle and a mapping of this file
    Hold(u8, u8),
    Look(u8),
    Reopen,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FCase {
    /// 0: memory, 1: directory, 2: archives, 3: archives behind a cache
    pub kind: u8,
    /// of the cache, in megabytes
    pub limit: u8,
    pub names: u8,
    pub ops: Vec<FOp>,
}

const SLOTS: u8 = 6;

fn name_of(names: u8, slot: u8) -> Id {
    let s = slot as u32;
    match names % 4 {
        // all in one directory
        0 => [0xabc0_0000, 1, 2, 3, s],
        1 => [s << 28 | 0x00f0_0000, s, 0, 0, u32::MAX],
        2 => [s, 0, 0, 0, 0],
        _ => [u32::MAX - s, u32::MAX, u32::MAX - s, u32::MAX, u32::MAX],
    }
}

fn content(w: &W) -> Vec<u8> {
    let mut x = (w.fill as u32).wrapping_mul(0x9e37_79b9) ^ w.size;
    (0..w.size)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            x as u8
        })
        .collect()
}

/// the files in the order of the archive, without those of a special form
/// Base layers and child layers have different names for some: even ones are base layers here.
fn kinds(slot: u8) -> Vec<(&'static str, LayerFileEnum)> {
    let mut v: Vec<(u32, &'static str, LayerFileEnum)> =
        FILENAME_ENUM_MAP.iter().map(|(n, k)| (*k as u32, *n, *k)).filter(|x| x.2 != LayerFileEnum::Rollup).collect();
    v.sort_by_key(|x| (x.0, x.1));
    if slot % 2 == 1 {
        v.reverse();
    }
    v.dedup_by_key(|x| x.0);
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| (x.1, x.2)).collect()
}

fn parent_file() -> &'static str {
    FILENAME_ENUM_MAP.iter().find(|(_, k)| **k == LayerFileEnum::Parent).map(|(n, _)| *n).unwrap()
}
fn rollup_file() -> &'static str {
    FILENAME_ENUM_MAP.iter().find(|(_, k)| **k == LayerFileEnum::Rollup).map(|(n, _)| *n).unwrap()
}

#[derive(Clone, Default, Debug)]
struct Dir {
    done: bool,
    /// stored with a single call
    stored: bool,
    files: BTreeMap<&'static str, Vec<u8>>,
    /// handles were asked for
    touched: BTreeSet<&'static str>,
    parent: Option<Id>,
    rollup: Option<Id>,
}

/// hands out a few bytes at a time, and waits now and then
struct Dribble {
    data: Bytes,
    step: usize,
    wait: bool,
}

impl AsyncRead for Dribble {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.wait = !self.wait;
        if self.wait {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = self.step.min(self.data.len()).min(buf.remaining());
        let b = self.data.split_to(n);
        buf.put_slice(&b);
        Poll::Ready(Ok(()))
    }
}

fn oops<Tv>(r: io::Result<Tv>, what: &str) -> R<Tv> {
    r.map_err(|e| Fail::new(format!("files:error:{}", what), format!("{} failed: {:?}", what, e)))
}

fn show(b: &[u8]) -> String {
    format!("{} bytes {:02x?}", b.len(), &b[..b.len().min(8)])
}

fn same(got: &[u8], want: &[u8], sig: &str, what: &str) -> R<()> {
    if got != want {
        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(Fail::new(
            format!("files:{}", sig),
            format!("{}: read {}, written were {}; they differ at {}", what, show(got), show(want), at),
        ));
    }
    Ok(())
}

fn expect<Tv: PartialEq + std::fmt::Debug>(got: Tv, want: Tv, sig: &str, what: &str) -> R<()> {
    if got != want {
        return Err(Fail::new(format!("files:{}", sig), format!("{}: {:?}, expected {:?}", what, got, want)));
    }
    Ok(())
}

async fn read_some<Rd: AsyncRead + Unpin>(r: &mut Rd, out: &mut Vec<u8>, size: usize) -> io::Result<bool> {
    let mut buf = vec![0u8; size.max(1)];
    let n = r.read(&mut buf).await?;
    out.extend_from_slice(&buf[..n]);
    Ok(n > 0)
}

struct Held<F> {
    what: String,
    file: F,
    map: Option<Bytes>,
    want: Vec<u8>,
}

struct Run<'a, S: PersistentLayerStore> {
    store: S,
    kind: u8,
    names: u8,
    dirs: BTreeMap<u8, Dir>,
    held: Vec<Held<S::File>>,
    kinds: [Vec<(&'static str, LayerFileEnum)>; 2],
    ctx: &'a mut Ctx,
    parts: u64,
}

impl<'a, S: PersistentLayerStore> Run<'a, S> {
    fn archive(&self) -> bool {
        self.kind >= 2
    }
    fn id(&self, slot: u8) -> Id {
        name_of(self.names, slot)
    }
    fn kind_of(&self, slot: u8, n: usize) -> &'static str {
        let v = &self.kinds[slot as usize % 2];
        v[n % v.len()].0
    }
    fn slot(&self, n: u8, f: impl Fn(&Dir) -> bool) -> Option<u8> {
        let v: Vec<u8> = self.dirs.iter().filter(|(_, d)| f(d)).map(|(s, _)| *s).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[n as usize % v.len()])
        }
    }

    async fn write(&mut self, slot: u8, ws: &[W]) -> R<()> {
        let id = self.id(slot);
        let mut jobs = vec![];
        for w in ws {
            let name = self.kind_of(slot, w.file as usize);
            let d = self.dirs.get_mut(&slot).unwrap();
            if name == parent_file() || d.files.contains_key(name) {
                continue;
            }
            let data = content(w);
            let file = oops(self.store.get_file(id, name).await, "get_file")?;
            expect(oops(file.exists().await, "exists")?, false, "exists-early", &format!("{} exists before it was written", name))?;
            let writer = oops(file.open_write().await, "open_write")?;
            d.touched.insert(name);
            d.files.insert(name, data.clone());
            jobs.push((Some(writer), data, 0usize, w.chunk.max(1) as usize, w.flush));
        }
        // in turns
        loop {
            let mut busy = false;
            for (writer, data, pos, chunk, flush) in jobs.iter_mut() {
                if let Some(w) = writer.as_mut() {
                    busy = true;
                    let end = (*pos + *chunk).min(data.len());
                    oops(w.write_all(&data[*pos..end]).await, "write")?;
                    *pos = end;
                    if *flush || end == data.len() {
                        oops(w.flush().await, "flush")?;
                    }
                }
                if *pos == data.len() {
                    if let Some(w) = writer.take() {
                        oops(w.sync_all().await, "sync_all")?;
                    }
                }
            }
            if !busy {
                break;
            }
        }
        Ok(())
    }

    async fn step(&mut self, op: &FOp) -> R<()> {
        match op {
            FOp::Create(n) => {
                let slot = n % SLOTS;
                if self.dirs.contains_key(&slot) {
                    return Ok(());
                }
                self.check_absent(slot).await?;
                let id = self.id(slot);
                expect(oops(self.store.create_named_directory(id).await, "create_named_directory")?, id, "name", "name of the new layer")?;
                self.dirs.insert(slot, Dir::default());
            }
            FOp::Again(n) => {
                // the one in memory starts over
                if self.kind == 0 {
                    return Ok(());
                }
                if let Some(slot) = self.slot(*n, |_| true) {
                    let r = self.store.create_named_directory(self.id(slot)).await;
                    if self.archive() {
                        expect(r.map_err(|e| e.kind()).err(), Some(io::ErrorKind::AlreadyExists), "created-twice", "creating a layer that is there already")?;
                    } else {
                        oops(r, "create_named_directory again")?;
                    }
                    self.ctx.label("created-again");
                    self.check(slot, false).await?;
                }
            }
            FOp::Write(n, ws) => {
                if let Some(slot) = self.slot(*n, |d| !d.done) {
                    self.write(slot, ws).await?;
                    self.ctx.label("written");
                }
            }
            FOp::Parent(n, p) => {
                if let Some(slot) = self.slot(*n, |d| !d.done && d.parent.is_none()) {
                    let pid = self.id(p % 16);
                    oops(self.store.write_parent_file(self.id(slot), pid).await, "write_parent_file")?;
                    let d = self.dirs.get_mut(&slot).unwrap();
                    d.parent = Some(pid);
                    d.touched.insert(parent_file());
                    d.files.insert(parent_file(), name_to_string(pid).into_bytes());
                    expect(oops(self.store.read_parent_file(self.id(slot)).await, "read_parent_file")?, pid, "parent", "parent in its file")?;
                }
            }
            FOp::Finalize(n) => {
                if let Some(slot) = self.slot(*n, |d| !d.done) {
                    oops(self.store.finalize(self.id(slot)).await, "finalize")?;
                    self.dirs.get_mut(&slot).unwrap().done = true;
                    self.ctx.label("finalized");
                    self.check(slot, true).await?;
                }
            }
            FOp::Store(n, ws, parent) => {
                let slot = n % SLOTS;
                let id = self.id(slot);
                if let Some(d) = self.dirs.get(&slot) {
                    if d.stored {
                        let files: HashMap<String, Vec<u8>> = d.files.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
                        oops(self.store.store_layer_files(id, &files).await, "store_layer_files again")?;
                        self.ctx.label("stored-again");
                        self.check(slot, true).await?;
                    }
                    return Ok(());
                }
                self.check_absent(slot).await?;
                let mut d = Dir { done: true, stored: true, ..Dir::default() };
                for w in ws {
                    let name = self.kind_of(slot, w.file as usize);
                    if name != parent_file() {
                        d.files.insert(name, content(w));
                    }
                }
                if let Some(p) = parent {
                    let pid = self.id(p % 16);
                    d.parent = Some(pid);
                    d.files.insert(parent_file(), name_to_string(pid).into_bytes());
                }
                let files: HashMap<String, Vec<u8>> = d.files.iter().map(|(n, c)| (n.to_string(), c.clone())).collect();
                oops(self.store.store_layer_files(id, &files).await, "store_layer_files")?;
                self.dirs.insert(slot, d);
                self.ctx.label("stored");
                self.check(slot, true).await?;
            }
            FOp::Rollup(n, r) => {
                if let Some(slot) = self.slot(*n, |d| d.done) {
                    let rid = self.id(r % 16);
                    oops(self.store.write_rollup_file(self.id(slot), rid).await, "write_rollup_file")?;
                    self.dirs.get_mut(&slot).unwrap().rollup = Some(rid);
                    self.ctx.label("rollup");
                    self.check_rollup(slot).await?;
                }
            }
            FOp::Read(two) => {
                let mut readers = vec![];
                for (n, f, from, size) in two {
                    if let Some(slot) = self.slot(*n, |d| !d.files.is_empty()) {
                        let d = &self.dirs[&slot];
                        let (name, want) = d.files.iter().nth(*f as usize % d.files.len()).unwrap();
                        let offset = want.len() * *from as usize / 255;
                        let file = oops(self.store.get_file(self.id(slot), name).await, "get_file")?;
                        let r = oops(file.open_read_from(offset).await, "open_read_from")?;
                        let what = format!("{} of layer {} from {} in steps of {}", name, slot, offset, size);
                        readers.push((r, vec![], want[offset..].to_vec(), *size as usize, what, false));
                        if offset > 0 && offset < want.len() {
                            self.parts += 1;
                        }
                        if self.kind > 0 {
                            // past the end there is nothing
                            if let Ok(mut r) = file.open_read_from(want.len() + 1 + *from as usize).await {
                                let mut v = vec![];
                                if r.read_to_end(&mut v).await.is_ok() {
                                    expect(v.len(), 0, "past-end", &format!("bytes past the end of {} of layer {}", name, slot))?;
                                }
                            }
                        }
                    }
                }
                // in turns
                let mut rounds = 0;
                loop {
                    let mut busy = false;
                    for (r, out, _, size, _, done) in readers.iter_mut() {
                        if !*done {
                            busy = true;
                            // a few small steps, then large ones: files may be large
                            let n = if rounds < 60 { *size } else { 100_000 };
                            *done = !oops(read_some(r, out, n).await, "read")?;
                        }
                    }
                    rounds += 1;
                    if !busy {
                        break;
                    }
                }
                for (_, out, want, _, what, _) in readers {
                    same(&out, &want, "part", &what)?;
                }
            }
            FOp::Hold(n, f) => {
                if let Some(slot) = self.slot(*n, |d| !d.files.is_empty()) {
                    let d = &self.dirs[&slot];
                    let (name, want) = d.files.iter().nth(*f as usize % d.files.len()).unwrap();
                    let (name, want) = (*name, want.clone());
                    let file = oops(self.store.get_file(self.id(slot), name).await, "get_file")?;
                    let map = oops(file.map_if_exists().await, "map_if_exists")?;
                    self.held.push(Held { what: format!("{} of layer {}, held", name, slot), file, map, want });
                    self.ctx.label("held");
                }
            }
            FOp::Look(n) => {
                if let Some(slot) = self.slot(*n, |_| true) {
                    self.check(slot, true).await?;
                }
                let absent: Vec<u8> = (0..SLOTS).filter(|s| !self.dirs.contains_key(s)).collect();
                if !absent.is_empty() {
                    self.check_absent(absent[*n as usize % absent.len()]).await?;
                }
                self.check_list().await?;
            }
            FOp::Reopen => {}
        }
        Ok(())
    }

    async fn check_list(&mut self) -> R<()> {
        let got = oops(self.store.directories().await, "directories")?;
        let set: BTreeSet<Id> = got.iter().cloned().collect();
        expect(got.len(), set.len(), "listed-twice", "number of layers listed")?;
        let want: BTreeSet<Id> =
            self.dirs.iter().filter(|(_, d)| d.done || !self.archive()).map(|(s, _)| name_of(self.names, *s)).collect();
        expect(set, want, "listed", "layers listed")
    }

    async fn check_absent(&mut self, slot: u8) -> R<()> {
        let id = self.id(slot);
        let what = format!("layer {}, which was not made", slot);
        expect(oops(self.store.directory_exists(id).await, "directory_exists")?, false, "phantom", &what)?;
        let name = self.kind_of(slot, slot as usize * 7);
        expect(oops(self.store.file_exists(id, name).await, "file_exists")?, false, "phantom-file", &what)?;
        expect(oops(self.store.file_exists(id, rollup_file()).await, "file_exists")?, false, "phantom-file", &what)?;
        expect(oops(self.store.layer_has_parent(id).await, "layer_has_parent")?, false, "phantom-file", &what)?;
        expect(oops(self.store.layer_has_rollup(id).await, "layer_has_rollup")?, false, "phantom-file", &what)?;
        match self.store.layer_parent(id).await {
            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
            r => return Err(Fail::new("files:phantom-parent", format!("parent of {}: {:?}", what, r))),
        }
        match self.store.get_file(id, name).await {
            Ok(f) => {
                expect(oops(f.exists().await, "exists")?, false, "phantom-file", &what)?;
                // it is missing, or the whole layer is
                match f.map_if_exists().await {
                    Ok(None) => {}
                    Err(e) if e.kind() == io::ErrorKind::NotFound => {}
                    r => return Err(Fail::new("files:phantom-file", format!("file of {}: {:?}", what, r))),
                }
            }
            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
            Err(e) => return Err(Fail::new("files:phantom-file", format!("file of {}: {:?}", what, e))),
        }
        Ok(())
    }

    async fn check_rollup(&mut self, slot: u8) -> R<()> {
        let id = self.id(slot);
        let d = self.dirs[&slot].clone();
        let has = d.rollup.is_some();
        expect(oops(self.store.layer_has_rollup(id).await, "layer_has_rollup")?, has, "has-rollup", &format!("layer {} has a rollup", slot))?;
        expect(oops(self.store.file_exists(id, rollup_file()).await, "file_exists")?, has, "has-rollup", &format!("layer {} has a rollup file", slot))?;
        let file = oops(self.store.get_file(id, rollup_file()).await, "get_file")?;
        expect(oops(file.exists().await, "exists")?, has, "has-rollup", &format!("rollup file of layer {} exists", slot))?;
        if let Some(r) = d.rollup {
            expect(oops(self.store.read_rollup_file(id).await, "read_rollup_file")?, r, "rollup", &format!("rollup of layer {}", slot))?;
            let text = oops(file.map().await, "map")?;
            let lines: Vec<String> = String::from_utf8_lossy(&text).lines().map(|l| l.to_string()).collect();
            expect(lines, vec!["1".to_string(), name_to_string(r)], "rollup", &format!("rollup file of layer {}", slot))?;
            expect(oops(file.size().await, "size")?, text.len(), "rollup", &format!("size of the rollup file of layer {}", slot))?;
            let mut v = vec![];
            oops(oops(file.open_read_from(2).await, "open_read_from")?.read_to_end(&mut v).await, "read")?;
            same(&v, &text[2..], "rollup", &format!("rollup file of layer {} from 2", slot))?;
        }
        Ok(())
    }

    async fn check(&mut self, slot: u8, all: bool) -> R<()> {
        let id = self.id(slot);
        let d = self.dirs[&slot].clone();
        let seen = d.done || !self.archive();
        expect(oops(self.store.directory_exists(id).await, "directory_exists")?, seen, "exists", &format!("layer {} exists", slot))?;
        for (i, (name, _)) in self.kinds[slot as usize % 2].clone().into_iter().enumerate() {
            if !all && i % 5 != slot as usize % 5 && !d.files.contains_key(name) {
                continue;
            }
            let what = format!("{} of layer {}{}", name, slot, if d.done { "" } else { ", under construction" });
            let want = d.files.get(name);
            if seen || want.is_some() || !d.touched.contains(name) {
                expect(oops(self.store.file_exists(id, name).await, "file_exists")?, want.is_some(), "file-exists", &format!("{} exists", what))?;
            }
            let file = oops(self.store.get_file(id, name).await, "get_file")?;
            self.dirs.get_mut(&slot).unwrap().touched.insert(name);
            expect(oops(file.exists().await, "exists")?, want.is_some(), "exists", &format!("{} exists", what))?;
            match (oops(file.map_if_exists().await, "map_if_exists")?, want) {
                (None, None) => {
                    match file.map().await {
                        Err(e) if e.kind() == io::ErrorKind::NotFound => {}
                        r => return Err(Fail::new("files:absent", format!("{}, which was not written: {:?}", what, r))),
                    }
                    if self.kind > 0 {
                        // no such method panics on any storage but the one in memory
                        for r in [file.size().await.map(|_| ()), file.open_read_from(0).await.map(|_| ()), file.open_read_from(1).await.map(|_| ())] {
                            match r {
                                Err(e) if e.kind() == io::ErrorKind::NotFound => {}
                                r => return Err(Fail::new("files:absent", format!("{}, which was not written: {:?}", what, r))),
                            }
                        }
                    }
                }
                (Some(got), Some(want)) => {
                    same(&got, want, "whole", &what)?;
                    expect(oops(file.size().await, "size")?, want.len(), "size", &format!("size of {}", what))?;
                    same(&oops(file.map().await, "map")?, want, "whole", &what)?;
                    let mut v = vec![];
                    oops(oops(file.open_read().await, "open_read")?.read_to_end(&mut v).await, "read")?;
                    same(&v, want, "stream", &what)?;
                    // all of it but the last, in one go
                    let mut v = vec![];
                    oops(oops(file.open_read_from(want.len() / 2).await, "open_read_from")?.read_to_end(&mut v).await, "read")?;
                    same(&v, &want[want.len() / 2..], "part", &format!("second half of {}", what))?;
                    if want.len() > 1 {
                        self.parts += 1;
                    }
                }
                (got, want) => {
                    return Err(Fail::new("files:whole", format!("{}: mapped {:?}, written {:?}", what, got.map(|b| show(&b)), want.map(|b| show(b)))));
                }
            }
        }
        if seen {
            expect(oops(self.store.layer_has_parent(id).await, "layer_has_parent")?, d.parent.is_some(), "has-parent", &format!("layer {} has a parent", slot))?;
            expect(oops(self.store.layer_parent(id).await, "layer_parent")?, d.parent, "parent", &format!("parent of layer {}", slot))?;
            if let Some(p) = d.parent {
                expect(oops(self.store.read_parent_file(id).await, "read_parent_file")?, p, "parent", &format!("parent of layer {}", slot))?;
            }
        }
        if d.done {
            self.check_rollup(slot).await?;
        }
        Ok(())
    }

    async fn check_held(&mut self) -> R<()> {
        for h in self.held.iter() {
            if let Some(m) = &h.map {
                same(m, &h.want, "held", &h.what)?;
            } else {
                return Err(Fail::new("files:held", format!("{}: could not be mapped", h.what)));
            }
            same(&oops(h.file.map().await, "map")?, &h.want, "held", &h.what)?;
            let mut v = vec![];
            oops(oops(h.file.open_read().await, "open_read")?.read_to_end(&mut v).await, "read")?;
            same(&v, &h.want, "held", &h.what)?;
        }
        Ok(())
    }
}

/// What only archives can be asked.
async fn check_archive<M: ArchiveMetadataBackend, D: ArchiveBackend>(
    m: &M,
    d: &D,
    names: u8,
    dirs: &BTreeMap<u8, Dir>,
    deep: bool,
) -> R<()> {
    let got: BTreeSet<Id> = oops(m.get_layer_names().await, "get_layer_names")?.into_iter().collect();
    let want: BTreeSet<Id> = dirs.iter().filter(|(_, d)| d.done).map(|(s, _)| name_of(names, *s)).collect();
    expect(got, want, "archives", "names of archives")?;
    for (slot, dir) in dirs {
        let id = name_of(names, *slot);
        expect(oops(m.layer_exists(id).await, "layer_exists")?, dir.done, "archive-exists", &format!("archive {} exists", slot))?;
        if !dir.done {
            continue;
        }
        let bytes = oops(d.get_layer_bytes(id).await, "get_layer_bytes")?;
        expect(oops(m.layer_size(id).await, "layer_size")?, bytes.len() as u64, "archive-size", &format!("size of archive {}", slot))?;
        expect(oops(m.get_parent(id).await, "get_parent")?, dir.parent, "parent", &format!("parent of archive {}", slot))?;
        expect(oops(m.get_rollup(id).await, "get_rollup")?, dir.rollup, "rollup", &format!("rollup of archive {}", slot))?;
        let parsed = Archive::parse(bytes.clone());
        let more: Bytes = [&bytes[..], b"and what comes next"].concat().into();
        let mut reader = Dribble { data: more, step: if bytes.len() < 5000 { 1 + *slot as usize * 3 } else { 4096 }, wait: false };
        let streamed = oops(Archive::parse_from_reader(&mut reader).await, "parse_from_reader")?;
        let mut rest = vec![];
        oops(reader.read_to_end(&mut rest).await, "read")?;
        same(&rest, b"and what comes next", "archive-end", &format!("what is behind archive {}", slot))?;
        for (i, (name, k)) in kinds(*slot).iter().enumerate() {
            let what = format!("{} in archive {}", name, slot);
            let want = dir.files.get(name);
            for a in [&parsed, &streamed] {
                let got = a.slice_for(*k);
                expect(got.is_some(), want.is_some(), "archive-slice", &format!("{} is there", what))?;
                if let (Some(g), Some(w)) = (got, want) {
                    same(&g, w, "archive-slice", &what)?;
                }
                expect(a.size_of(*k), want.map(|w| w.len()), "archive-size", &format!("size of {}", what))?;
            }
            if !deep && i % 7 != *slot as usize {
                continue;
            }
            expect(oops(m.layer_file_exists(id, *k).await, "layer_file_exists")?, want.is_some(), "archive-has", &format!("{} is there", what))?;
            let got = oops(d.get_layer_structure_bytes(id, *k).await, "get_layer_structure_bytes")?;
            expect(got.is_some(), want.is_some(), "archive-slice", &format!("{} is there", what))?;
            match want {
                Some(w) => {
                    same(&got.unwrap(), w, "archive-slice", &what)?;
                    expect(oops(m.get_layer_structure_size(id, *k).await, "get_layer_structure_size")?, w.len(), "archive-size", &format!("size of {}", what))?;
                    let from = w.len() / 3;
                    let mut v = vec![];
                    let mut r = oops(d.read_layer_structure_bytes_from(id, *k, from).await, "read_layer_structure_bytes_from")?;
                    oops(r.read_to_end(&mut v).await, "read")?;
                    same(&v, &w[from..], "part", &what)?;
                }
                None => {
                    for r in [
                        m.get_layer_structure_size(id, *k).await.map(|_| ()),
                        d.read_layer_structure_bytes_from(id, *k, 0).await.map(|_| ()),
                    ] {
                        match r {
                            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
                            r => return Err(Fail::new("files:absent", format!("{}, which was not written: {:?}", what, r))),
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

type Fut<'a> = Pin<Box<dyn Future<Output = R<()>> + 'a>>;

async fn drive<S: PersistentLayerStore>(
    case: &FCase,
    ctx: &mut Ctx,
    open: impl Fn() -> S,
    extra: impl for<'b> Fn(&'b BTreeMap<u8, Dir>) -> Fut<'b>,
) -> R<()> {
    let mut run = Run {
        store: open(),
        kind: case.kind,
        names: case.names,
        dirs: BTreeMap::new(),
        held: vec![],
        kinds: [kinds(0), kinds(1)],
        ctx,
        parts: 0,
    };
    for slot in 0..16 {
        let id = name_of(case.names, slot);
        let s = name_to_string(id);
        expect(oops(string_to_name(&s), "string_to_name")?, id, "name", &format!("name {}", s))?;
        expect(oops(bytes_to_name(&s.clone().into_bytes()), "bytes_to_name")?, id, "name", &format!("name {}", s))?;
        expect(s.len(), 40, "name", "length of a name")?;
    }
    for (i, op) in case.ops.iter().enumerate() {
        let r = if let FOp::Reopen = op {
            run.check_held().await?;
            run.held.clear();
            if case.kind >= 2 {
                // what was not finished is gone
                run.dirs.retain(|_, d| d.done);
            }
            run.store = open();
            run.ctx.label("reopened");
            run.check_list().await
        } else {
            run.step(op).await
        };
        r.map_err(|f| f.ctx(format!("operation {} {:?}", i, op)))?;
        if matches!(op, FOp::Look(_)) {
            extra(&run.dirs).await.map_err(|f| f.ctx(format!("operation {} {:?}", i, op)))?;
        }
    }
    for slot in run.dirs.keys().cloned().collect::<Vec<_>>() {
        run.check(slot, true).await.map_err(|f| f.ctx("in the end"))?;
    }
    run.check_list().await?;
    run.check_held().await?;
    extra(&run.dirs).await.map_err(|f| f.ctx("in the end"))?;
    let files: usize = run.dirs.values().map(|d| d.files.len()).sum();
    let parts = run.parts;
    let empty = run.dirs.values().any(|d| d.files.values().any(|f| f.is_empty()));
    let big = run.dirs.values().any(|d| d.files.values().any(|f| f.len() > 8192));
    let bare = run.dirs.values().any(|d| d.done && d.files.is_empty());
    let ctx = run.ctx;
    ctx.count("files", files as u64);
    ctx.count("partial-reads", parts);
    for (c, l) in [(empty, "empty-file"), (big, "file-beyond-buffer"), (bare, "layer-without-files")] {
        if c {
            ctx.label(l);
        }
    }
    ctx.nontrivial = files >= 3 && parts > 0;
    Ok(())
}

fn none<'b>(_: &'b BTreeMap<u8, Dir>) -> Fut<'b> {
    Box::pin(async { Ok(()) })
}

async fn run_case(case: &FCase, ctx: &mut Ctx) -> R<()> {
    ctx.label(["memory", "directory", "archives", "cached-archives"][case.kind as usize % 4]);
    match case.kind {
        0 => {
            let m = MemoryLayerStore::new();
            drive(case, ctx, || m.clone(), none).await
        }
        1 => {
            let p: PathBuf = ctx.new_dir();
            drive(case, ctx, || DirectoryLayerStore::new(p.clone()), none).await
        }
        2 => {
            let p: PathBuf = ctx.new_dir();
            let names = case.names;
            let b = DirectoryArchiveBackend::new(p.clone());
            let b = &b;
            drive(
                case,
                ctx,
                || ArchiveLayerStore::new(DirectoryArchiveBackend::new(p.clone()), DirectoryArchiveBackend::new(p.clone())),
                move |dirs| {
                    let b = b.clone();
                    Box::pin(async move { check_archive(&b, &b, names, dirs, true).await })
                },
            )
            .await
        }
        _ => {
            let p: PathBuf = ctx.new_dir();
            let names = case.names;
            let limit = case.limit as usize * 1024 * 1024;
            let make = || {
                let b = DirectoryArchiveBackend::new(p.clone());
                LruArchiveBackend::new(b.clone(), b, limit)
            };
            let current = std::cell::RefCell::new(make());
            let current = &current;
            drive(
                case,
                ctx,
                || {
                    let b = make();
                    *current.borrow_mut() = b.clone();
                    ArchiveLayerStore::new(b.clone(), b)
                },
                move |dirs| {
                    let b = current.borrow().clone();
                    Box::pin(async move { check_archive(&b, &b, names, dirs, false).await })
                },
            )
            .await
        }
    }
}

fn size() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => Just(0u32),
        2 => Just(1u32),
        6 => 2u32..200,
        4 => 200u32..9000,
        1 => 9000u32..70_000,
    ]
    .boxed()
}

fn write() -> BoxedStrategy<W> {
    (any::<u8>(), size(), any::<u8>(), prop_oneof![1u32..50, 50u32..5000, Just(1_000_000u32)], any::<bool>())
        .prop_map(|(file, size, fill, chunk, flush)| {
            // not thousands of steps
            let chunk = chunk.max(size / 200);
            W { file, size, fill, chunk, flush }
        })
        .boxed()
}

fn large() -> BoxedStrategy<W> {
    (any::<u8>(), 300_000u32..3_000_000, any::<u8>())
        .prop_map(|(file, size, fill)| W { file, size, fill, chunk: 100_000, flush: false })
        .boxed()
}

pub struct C22;
impl Prop for C22 {
    type Case = FCase;
    const ID: &'static str = "C22";
    const RULE: &'static str = "at least three files were written and one of them was read in part";
    fn cases(tier: Tier) -> u32 {
        match tier {
            Tier::Quick => 4000,
            Tier::Thorough => 60000,
        }
    }
    fn strategy(_: Tier) -> BoxedStrategy<FCase> {
        let files = || prop_oneof![20 => prop::collection::vec(write(), 1..8), 3 => prop::collection::vec(write(), 8..50), 1 => prop::collection::vec(large(), 1..3)];
        let reader = || (any::<u8>(), any::<u8>(), any::<u8>(), prop_oneof![1u16..20, 20u16..4096, Just(u16::MAX)]);
        let op = prop_oneof![
            4 => (0..SLOTS).prop_map(FOp::Create),
            1 => (0..SLOTS).prop_map(FOp::Again),
            6 => ((0..SLOTS), files()).prop_map(|(s, f)| FOp::Write(s, f)),
            2 => ((0..SLOTS), any::<u8>()).prop_map(|(s, p)| FOp::Parent(s, p)),
            3 => (0..SLOTS).prop_map(FOp::Finalize),
            3 => ((0..SLOTS), files(), prop::option::of(any::<u8>())).prop_map(|(s, f, p)| FOp::Store(s, f, p)),
            3 => ((0..SLOTS), any::<u8>()).prop_map(|(s, r)| FOp::Rollup(s, r)),
            5 => [reader(), reader()].prop_map(FOp::Read),
            2 => ((0..SLOTS), any::<u8>()).prop_map(|(s, f)| FOp::Hold(s, f)),
            2 => (0..SLOTS).prop_map(FOp::Look),
            1 => Just(FOp::Reopen),
        ];
        (
            prop_oneof![1 => Just(0u8), 2 => Just(1u8), 4 => Just(2u8), 2 => Just(3u8)],
            0u8..4,
            0u8..4,
            (0..SLOTS, prop::collection::vec(op, 3..26)),
        )
            .prop_map(|(kind, limit, names, (first, mut ops))| {
                ops.insert(0, FOp::Create(first));
                FCase { kind, limit, names, ops }
            })
            .boxed()
    }
    fn run(case: &FCase, ctx: &mut Ctx) -> R<()> {
        let rt = ctx.rt.clone();
        rt.block_on(run_case(case, ctx))
    }
    fn assumptions() -> Vec<String> {
        vec![
            "a file is written once, before its layer is finalized, as the builders do; overwriting is not part of the contract (except for rollup files)".into(),
            "files of a layer under construction are not asked for with size() or open_read() on memory storage when they were not written: that belongs to the external crate of these files".into(),
        ]
    }
}
