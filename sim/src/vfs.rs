//! The simulated disk: files and directories in memory, each file with the
//! content processes see and the content that would survive a power loss,
//! and a log of directory changes that are not yet durable.

use crate::prng::{mix, Rng};
use std::collections::BTreeMap;

pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    File,
    Dir,
    Symlink(String),
    /// Bytes come from the simulator, not from the disk.
    Device(char),
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub kind: Kind,
    pub data: Vec<u8>,
    /// Content known to survive a power loss.
    pub durable: Vec<u8>,
    pub mode: u32,
    pub mtime: (i64, i64),
}

#[derive(Clone, Debug)]
enum NsOp {
    Link(String, usize),
    Unlink(String),
    Rename(String, String),
}

#[derive(Clone, Debug, Default)]
pub struct Vfs {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    log: Vec<NsOp>,
    /// Bytes that still fit; None: no limit.
    pub space: Option<u64>,
    pub now: (i64, i64),
    /// Changes to the visible content or names since the last look.
    pub version: u64,
}

fn apply(names: &mut BTreeMap<String, usize>, op: &NsOp) {
    match op {
        NsOp::Link(p, i) => {
            names.insert(p.clone(), *i);
        }
        NsOp::Unlink(p) => {
            names.remove(p);
        }
        NsOp::Rename(a, b) => {
            let prefix = format!("{a}/");
            if let Some(i) = names.remove(a) {
                names.insert(b.clone(), i);
            }
            let inner: Vec<String> = names.range(prefix.clone()..).take_while(|(k, _)| k.starts_with(&prefix)).map(|(k, _)| k.clone()).collect();
            for k in inner {
                let i = names.remove(&k).unwrap();
                names.insert(format!("{b}/{}", &k[prefix.len()..]), i);
            }
        }
    }
}

impl Vfs {
    pub fn new() -> Self {
        let mut v = Vfs::default();
        v.add_dir("/");
        v
    }
    fn add(&mut self, path: &str, kind: Kind, data: &[u8], mode: u32) -> usize {
        let ino = self.inodes.len();
        self.inodes.push(Inode { kind, data: data.to_vec(), durable: data.to_vec(), mode, mtime: self.now });
        self.names.insert(path.to_string(), ino);
        self.durable_names.insert(path.to_string(), ino);
        ino
    }
    /// Set-up of a world: durable from the start.
    pub fn add_dir(&mut self, path: &str) {
        if path.len() > 1 {
            let parent = parent_of(path);
            if !self.names.contains_key(&parent) {
                self.add_dir(&parent);
            }
        }
        if !self.names.contains_key(path) {
            self.add(path, Kind::Dir, b"", 0o40755);
        }
    }
    pub fn add_file(&mut self, path: &str, data: &[u8]) {
        self.add_dir(&parent_of(path));
        self.add(path, Kind::File, data, 0o100644);
    }
    pub fn add_symlink(&mut self, path: &str, target: &str) {
        self.add_dir(&parent_of(path));
        self.add(path, Kind::Symlink(target.into()), b"", 0o120777);
    }
    pub fn add_device(&mut self, path: &str, which: char) {
        self.add_dir(&parent_of(path));
        self.add(path, Kind::Device(which), b"", 0o20666);
    }

    /// Absolute path with symbolic links resolved. The last component may be missing.
    pub fn resolve(&self, cwd: &str, path: &str, follow_last: bool) -> Result<String, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let mut todo: Vec<String> = path.split('/').rev().map(|s| s.to_string()).collect();
        let mut cur: String = if path.starts_with('/') { String::new() } else { cwd.to_string() };
        let must_be_dir = path.ends_with('/');
        let mut links = 0;
        while let Some(part) = todo.pop() {
            if part.is_empty() || part == "." {
                continue;
            }
            let here = if cur.is_empty() { "/" } else { cur.as_str() };
            match self.names.get(here) {
                None => return Err(ENOENT),
                Some(i) if self.inodes[*i].kind != Kind::Dir => return Err(ENOTDIR),
                _ => {}
            }
            if part == ".." {
                cur = parent_of(&cur);
                if cur == "/" {
                    cur.clear();
                }
                continue;
            }
            let next = format!("{cur}/{part}");
            let last = todo.iter().all(|s| s.is_empty());
            if let Some(i) = self.names.get(&next) {
                if let Kind::Symlink(t) = &self.inodes[*i].kind {
                    if !last || follow_last || must_be_dir {
                        links += 1;
                        if links > 16 {
                            return Err(ELOOP);
                        }
                        if t.starts_with('/') {
                            cur.clear();
                        }
                        for s in t.split('/').rev() {
                            todo.push(s.to_string());
                        }
                        continue;
                    }
                }
            } else if !last {
                return Err(ENOENT);
            }
            cur = next;
        }
        if cur.is_empty() {
            cur.push('/');
        }
        Ok(cur)
    }
    pub fn get(&self, abs: &str) -> Option<usize> {
        self.names.get(abs).copied()
    }
    pub fn content(&self, abs: &str) -> Option<&[u8]> {
        self.get(abs).filter(|i| self.inodes[*i].kind == Kind::File).map(|i| self.inodes[i].data.as_slice())
    }
    pub fn is_dir(&self, abs: &str) -> bool {
        self.get(abs).map_or(false, |i| self.inodes[i].kind == Kind::Dir)
    }
    pub fn children(&self, abs: &str) -> Vec<String> {
        let prefix = if abs == "/" { "/".to_string() } else { format!("{abs}/") };
        self.names
            .range(prefix.clone()..)
            .take_while(|(k, _)| k.starts_with(&prefix))
            .filter(|(k, _)| k.len() > prefix.len() && !k[prefix.len()..].contains('/'))
            .map(|(k, _)| k[prefix.len()..].to_string())
            .collect()
    }
    fn log(&mut self, op: NsOp) {
        apply(&mut self.names, &op);
        self.log.push(op);
        self.version += 1;
    }
    pub fn create(&mut self, abs: &str, kind: Kind, mode: u32) -> Result<usize, i32> {
        let p = parent_of(abs);
        if !self.is_dir(&p) {
            return Err(ENOENT);
        }
        if self.space == Some(0) {
            return Err(ENOSPC);
        }
        let ino = self.inodes.len();
        self.inodes.push(Inode { kind, data: vec![], durable: vec![], mode, mtime: self.now });
        self.log(NsOp::Link(abs.to_string(), ino));
        Ok(ino)
    }
    pub fn link(&mut self, ino: usize, abs: &str) -> Result<(), i32> {
        if self.names.contains_key(abs) {
            return Err(EEXIST);
        }
        self.log(NsOp::Link(abs.to_string(), ino));
        Ok(())
    }
    pub fn unlink(&mut self, abs: &str) -> Result<(), i32> {
        let i = self.get(abs).ok_or(ENOENT)?;
        if self.inodes[i].kind == Kind::Dir {
            return Err(EISDIR);
        }
        self.log(NsOp::Unlink(abs.to_string()));
        if !self.names.values().any(|x| *x == i) {
            let n = self.inodes[i].data.len() as u64;
            self.space = self.space.map(|s| s + n);
        }
        Ok(())
    }
    pub fn rmdir(&mut self, abs: &str) -> Result<(), i32> {
        let i = self.get(abs).ok_or(ENOENT)?;
        if self.inodes[i].kind != Kind::Dir {
            return Err(ENOTDIR);
        }
        if !self.children(abs).is_empty() {
            return Err(ENOTEMPTY);
        }
        self.log(NsOp::Unlink(abs.to_string()));
        Ok(())
    }
    pub fn rename(&mut self, a: &str, b: &str, noreplace: bool) -> Result<(), i32> {
        let i = self.get(a).ok_or(ENOENT)?;
        if !self.is_dir(&parent_of(b)) {
            return Err(ENOENT);
        }
        if let Some(j) = self.get(b) {
            if noreplace {
                return Err(EEXIST);
            }
            if i == j {
                return Ok(());
            }
            let (di, dj) = (self.inodes[i].kind == Kind::Dir, self.inodes[j].kind == Kind::Dir);
            if dj && !di {
                return Err(EISDIR);
            }
            if di && !dj {
                return Err(ENOTDIR);
            }
            if dj && !self.children(b).is_empty() {
                return Err(ENOTEMPTY);
            }
            let n = self.inodes[j].data.len() as u64;
            self.space = self.space.map(|s| s + n);
        }
        self.log(NsOp::Rename(a.to_string(), b.to_string()));
        Ok(())
    }
    /// Writes at most what fits; the number of bytes written, or ENOSPC.
    pub fn write(&mut self, ino: usize, off: usize, buf: &[u8]) -> Result<usize, i32> {
        let mut n = buf.len();
        let old = self.inodes[ino].data.len();
        if off + n > old {
            let grow = (off + n - old) as u64;
            if let Some(s) = self.space {
                if grow > s {
                    let fits = n as u64 - (grow - s).min(n as u64);
                    if fits == 0 {
                        return Err(ENOSPC);
                    }
                    n = fits as usize;
                }
                let grow = (off + n).saturating_sub(old) as u64;
                self.space = Some(s.saturating_sub(grow));
            }
        }
        let now = self.now;
        let i = &mut self.inodes[ino];
        if off + n > i.data.len() {
            i.data.resize(off + n, 0);
        }
        i.data[off..off + n].copy_from_slice(&buf[..n]);
        i.mtime = now;
        self.version += 1;
        Ok(n)
    }
    pub fn truncate(&mut self, ino: usize, len: usize) {
        let now = self.now;
        let i = &mut self.inodes[ino];
        let old = i.data.len();
        if old != len {
            i.data.resize(len, 0);
            self.version += 1;
            if let Some(s) = self.space {
                self.space = Some(if len < old { s + (old - len) as u64 } else { s.saturating_sub((len - old) as u64) });
            }
        }
        self.inodes[ino].mtime = now;
    }
    pub fn sync_file(&mut self, ino: usize) {
        if self.inodes[ino].kind == Kind::Dir {
            self.sync_names();
        } else {
            self.inodes[ino].durable = self.inodes[ino].data.clone();
        }
    }
    pub fn sync_names(&mut self) {
        for op in std::mem::take(&mut self.log) {
            apply(&mut self.durable_names, &op);
        }
    }
    pub fn sync_all(&mut self) {
        for i in &mut self.inodes {
            i.durable = i.data.clone();
        }
        self.sync_names();
    }
    pub fn unsynced(&self) -> usize {
        self.log.len()
    }
    /// The machine loses power. A prefix of the directory changes has reached
    /// the disk, and of every file anything between its durable and its
    /// current content. What happened is a function of `choice`.
    pub fn power_loss(&mut self, choice: u64) {
        let mut r = Rng::new(mix(&[choice, 0x706f776572]));
        let keep = match r.below(3) {
            0 => 0,
            1 => self.log.len(),
            _ => r.below(self.log.len() + 1),
        };
        let log = std::mem::take(&mut self.log);
        for op in &log[..keep] {
            apply(&mut self.durable_names, op);
        }
        self.names = self.durable_names.clone();
        let style = r.below(4);
        for i in &mut self.inodes {
            if i.kind != Kind::File || i.data == i.durable {
                continue;
            }
            let mode = if style == 3 { r.below(3) } else { style };
            match mode {
                0 => i.data = i.durable.clone(),
                1 => {}
                _ => {
                    /* Block by block either version; blocks never written read as zeros. */
                    let len = if r.chance(1, 2) { i.data.len() } else { r.below(i.data.len() + 1) };
                    let mut out = vec![0u8; len];
                    for start in (0..len).step_by(512) {
                        let end = (start + 512).min(len);
                        let src: &[u8] = match r.below(3) {
                            0 => &i.durable,
                            1 => &i.data,
                            _ => &[],
                        };
                        for k in start..end {
                            out[k] = src.get(k).copied().unwrap_or(0);
                        }
                    }
                    i.data = out;
                }
            }
            i.durable = i.data.clone();
        }
        self.version += 1;
    }
    /// Every file with its content: what another process would find.
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        self.names
            .iter()
            .filter(|(_, i)| matches!(self.inodes[**i].kind, Kind::File))
            .map(|(k, i)| (k.clone(), self.inodes[*i].data.clone()))
            .collect()
    }
}

pub fn parent_of(abs: &str) -> String {
    match abs.rfind('/') {
        None | Some(0) => "/".to_string(),
        Some(i) => abs[..i].to_string(),
    }
}
