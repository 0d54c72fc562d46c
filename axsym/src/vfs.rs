//! In-memory file system holding bytes that may be symbolic. Survives simulated crashes.
use crate::expr::E;
use crate::mem::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct VFile { pub size: u64, pub pages: BTreeMap<u64, Rc<Page>> }
#[derive(Clone)]
pub struct Fd { pub ino: usize, pub off: u64, pub append: bool }
#[derive(Clone, Default)]
pub struct Vfs { pub names: BTreeMap<String, usize>, pub files: Vec<Rc<VFile>>, pub dirs: std::collections::BTreeSet<String>, pub fds: Vec<Option<Fd>> }

impl Vfs {
    pub fn close_all(&mut self) { self.fds.clear(); self.fds.resize(3, None); }
    pub fn open(&mut self, path: &str, flags: u64) -> Result<u64, i32> {
        let create = flags & 0o100 != 0;
        let excl = flags & 0o200 != 0;
        let trunc = flags & 0o1000 != 0;
        let ino = match self.names.get(path) {
            Some(&i) => { if create && excl { return Err(17); } i }
            None => {
                if path == "/dev/null" { self.files.push(Rc::new(VFile::default())); self.names.insert(path.into(), self.files.len() - 1); }
                else if !create { return Err(2); } else { self.files.push(Rc::new(VFile::default())); self.names.insert(path.into(), self.files.len() - 1); }
                self.files.len() - 1
            }
        };
        if trunc { self.files[ino] = Rc::new(VFile::default()); }
        let fd = Fd { ino, off: 0, append: flags & 0o2000 != 0 };
        if self.fds.len() < 3 { self.fds.resize(3, None); }
        for i in 3..self.fds.len() { if self.fds[i].is_none() { self.fds[i] = Some(fd); return Ok(i as u64); } }
        self.fds.push(Some(fd));
        Ok(self.fds.len() as u64 - 1)
    }
    pub fn get(&self, fd: u64) -> Option<Fd> { self.fds.get(fd as usize).cloned().flatten() }
    pub fn read(&self, ino: usize, off: u64, len: u64) -> (Vec<u8>, Option<Vec<E>>) {
        let f = &self.files[ino];
        if off >= f.size { return (vec![], None); }
        let len = len.min(f.size - off) as usize;
        let mut out = vec![0u8; len];
        let mut sy: Option<Vec<E>> = None;
        let mut k = 0usize;
        while k < len {
            let a = off + k as u64;
            let o = (a & 4095) as usize;
            let n = (len - k).min(PS - o);
            if let Some(p) = f.pages.get(&(a >> 12)) {
                out[k..k + n].copy_from_slice(&p.d[o..o + n]);
                if let Some(s) = &p.sym { if s[o..o + n].iter().any(|&e| e != 0) { sy.get_or_insert_with(|| vec![0; len])[k..k + n].copy_from_slice(&s[o..o + n]); } }
            }
            k += n;
        }
        (out, sy)
    }
    pub fn write(&mut self, ino: usize, off: u64, d: &[u8], s: &Option<Vec<E>>) {
        let f = Rc::make_mut(&mut self.files[ino]);
        f.size = f.size.max(off + d.len() as u64);
        let mut k = 0usize;
        while k < d.len() {
            let a = off + k as u64;
            let o = (a & 4095) as usize;
            let n = (d.len() - k).min(PS - o);
            let p = Rc::make_mut(f.pages.entry(a >> 12).or_insert_with(|| Rc::new(Page::zero())));
            p.d[o..o + n].copy_from_slice(&d[k..k + n]);
            match s {
                Some(s) if s[k..k + n].iter().any(|&e| e != 0) => p.sym.get_or_insert_with(|| Box::new([0; PS]))[o..o + n].copy_from_slice(&s[k..k + n]),
                _ => if let Some(q) = p.sym.as_mut() { q[o..o + n].fill(0) },
            }
            k += n;
        }
    }
    pub fn truncate(&mut self, ino: usize, len: u64) {
        let f = Rc::make_mut(&mut self.files[ino]);
        if len < f.size {
            let keep: Vec<u64> = f.pages.keys().copied().filter(|k| k * 4096 >= len).collect();
            for k in keep { f.pages.remove(&k); }
            let o = (len & 4095) as usize;
            if o != 0 { if let Some(p) = f.pages.get_mut(&(len >> 12)) { let p = Rc::make_mut(p); p.d[o..].fill(0); if let Some(s) = p.sym.as_mut() { s[o..].fill(0); } } }
        }
        f.size = len;
    }
}
