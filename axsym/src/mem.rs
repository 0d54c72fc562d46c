//! Flat 36-bit address space, copy-on-write pages with an optional symbolic overlay.
use crate::expr::E;
use std::rc::Rc;

pub const PS: usize = 4096;
pub const CODE_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const TLS_TEMPLATE: u64 = 0x2000_0000;
pub const TLS_BASE: u64 = 0x3000_0000;
pub const TLS_STRIDE: u64 = 0x10_0000;
pub const GHOST_BASE: u64 = 0x6000_0000;
pub const GHOST_SIZE: u64 = 0x10_0000;
pub const STACK_BASE: u64 = 0x8000_0000;
pub const STACK_SIZE: u64 = 0x500_0000; // room between stacks; the limit of each is in its thread
pub const HEAP_BASE: u64 = 0x4_0000_0000;
pub const ADDR_LIMIT: u64 = 1 << 36;

#[derive(Clone)]
pub struct Page {
    pub d: [u8; PS],
    pub sym: Option<Box<[E; PS]>>,
}
impl Page {
    pub fn zero() -> Page { Page { d: [0; PS], sym: None } }
}
const L2N: usize = 4096;
type L2 = Vec<Option<Rc<Page>>>;

pub struct Mem {
    l1: Vec<Option<Rc<L2>>>,
    rtlb: Box<[(u64, *const Page); 256]>,
    wtlb: Box<[(u64, *mut Page); 256]>,
    zero: Rc<Page>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem {
            l1: (0..(ADDR_LIMIT as usize / PS / L2N)).map(|_| None).collect(),
            rtlb: Box::new([(u64::MAX, std::ptr::null()); 256]),
            wtlb: Box::new([(u64::MAX, std::ptr::null_mut()); 256]),
            zero: Rc::new(Page::zero()),
        }
    }
    pub fn flush_tlb(&mut self) {
        self.rtlb.fill((u64::MAX, std::ptr::null()));
        self.wtlb.fill((u64::MAX, std::ptr::null_mut()));
    }
    pub fn fork(&mut self) -> Mem {
        self.flush_tlb();
        Mem {
            l1: self.l1.clone(),
            rtlb: Box::new([(u64::MAX, std::ptr::null()); 256]),
            wtlb: Box::new([(u64::MAX, std::ptr::null_mut()); 256]),
            zero: self.zero.clone(),
        }
    }
    #[inline(always)]
    pub fn rpage(&mut self, addr: u64) -> &Page {
        let pn = addr >> 12;
        let slot = (pn & 255) as usize;
        let t = self.rtlb[slot];
        if t.0 == pn { return unsafe { &*t.1 }; }
        self.rpage_slow(pn, slot)
    }
    #[cold]
    fn rpage_slow(&mut self, pn: u64, slot: usize) -> &Page {
        let i1 = pn as usize / L2N;
        let i2 = pn as usize % L2N;
        let p: *const Page = match self.l1.get(i1).and_then(|x| x.as_ref()).and_then(|l| l[i2].as_ref()) {
            Some(p) => &**p,
            None => return &self.zero, // not cached: may be materialised later
        };
        self.rtlb[slot] = (pn, p);
        unsafe { &*p }
    }
    #[inline(always)]
    pub fn wpage(&mut self, addr: u64) -> &mut Page {
        let pn = addr >> 12;
        let slot = (pn & 255) as usize;
        let t = self.wtlb[slot];
        if t.0 == pn { return unsafe { &mut *t.1 }; }
        self.wpage_slow(pn, slot)
    }
    #[cold]
    fn wpage_slow(&mut self, pn: u64, slot: usize) -> &mut Page {
        let i1 = pn as usize / L2N;
        let i2 = pn as usize % L2N;
        let l2 = self.l1[i1].get_or_insert_with(|| Rc::new(vec![None; L2N]));
        let l2 = Rc::make_mut(l2);
        let p = l2[i2].get_or_insert_with(|| Rc::new(Page::zero()));
        let p: *mut Page = Rc::make_mut(p);
        self.wtlb[slot] = (pn, p);
        self.rtlb[slot] = (pn, p);
        unsafe { &mut *p }
    }
    pub fn drop_page(&mut self, addr: u64) {
        let pn = addr >> 12;
        let i1 = pn as usize / L2N;
        let i2 = pn as usize % L2N;
        if let Some(l2) = self.l1[i1].as_mut() {
            if l2[i2].is_some() { Rc::make_mut(l2)[i2] = None; }
        }
        let slot = (pn & 255) as usize;
        if self.rtlb[slot].0 == pn { self.rtlb[slot].0 = u64::MAX; }
        if self.wtlb[slot].0 == pn { self.wtlb[slot].0 = u64::MAX; }
    }
    #[inline(always)]
    pub fn read_u64(&mut self, addr: u64, n: u32) -> Option<u64> {
        // concrete fast path; None when symbolic or page-crossing
        let off = (addr & 4095) as usize;
        if off + n as usize > PS { return None; }
        let p = self.rpage(addr);
        if p.sym.is_some() { return None; }
        unsafe {
            let q = p.d.as_ptr().add(off);
            Some(match n {
                1 => *q as u64,
                2 => (q as *const u16).read_unaligned() as u64,
                4 => (q as *const u32).read_unaligned() as u64,
                8 => (q as *const u64).read_unaligned(),
                _ => { let mut v = 0u64; for i in 0..n as usize { v |= (*q.add(i) as u64) << (8 * i); } v }
            })
        }
    }
    /// allocator header field: 8 aligned bytes, always concrete
    pub fn header(&mut self, addr: u64) -> u64 {
        let off = (addr & 4095) as usize;
        u64::from_le_bytes(self.rpage(addr).d[off..off + 8].try_into().unwrap())
    }
    #[inline(always)]
    pub fn byte(&mut self, addr: u64) -> (u8, E) {
        let off = (addr & 4095) as usize;
        let p = self.rpage(addr);
        (p.d[off], match &p.sym { Some(s) => s[off], None => 0 })
    }
    #[inline(always)]
    pub fn write_u64(&mut self, addr: u64, n: u32, v: u64) {
        let off = (addr & 4095) as usize;
        if off + n as usize <= PS {
            let p = self.wpage(addr);
            if let Some(s) = p.sym.as_mut() { for i in 0..n as usize { s[off + i] = 0; } }
            unsafe {
                let q = p.d.as_mut_ptr().add(off);
                match n {
                    1 => *q = v as u8,
                    2 => (q as *mut u16).write_unaligned(v as u16),
                    4 => (q as *mut u32).write_unaligned(v as u32),
                    8 => (q as *mut u64).write_unaligned(v),
                    _ => for i in 0..n as usize { *q.add(i) = (v >> (8 * i)) as u8; },
                }
            }
        } else {
            for i in 0..n as u64 { self.set_byte(addr + i, (v >> (8 * i)) as u8, 0); }
        }
    }
    pub fn set_byte(&mut self, addr: u64, v: u8, e: E) {
        let off = (addr & 4095) as usize;
        let p = self.wpage(addr);
        p.d[off] = v;
        if e != 0 {
            p.sym.get_or_insert_with(|| Box::new([0; PS]))[off] = e;
        } else if let Some(s) = p.sym.as_mut() { s[off] = 0; }
    }
    pub fn write_bytes(&mut self, mut addr: u64, mut b: &[u8]) {
        while !b.is_empty() {
            let off = (addr & 4095) as usize;
            let n = b.len().min(PS - off);
            let p = self.wpage(addr);
            p.d[off..off + n].copy_from_slice(&b[..n]);
            if let Some(s) = p.sym.as_mut() { s[off..off + n].fill(0); }
            b = &b[n..];
            addr += n as u64;
        }
    }
    pub fn fill(&mut self, mut addr: u64, mut len: u64, v: u8, e: E) {
        while len > 0 {
            let off = (addr & 4095) as usize;
            let n = (len as usize).min(PS - off);
            if n == PS && v == 0 && e == 0 { self.drop_page(addr); } else {
                let p = self.wpage(addr);
                p.d[off..off + n].fill(v);
                if e != 0 { p.sym.get_or_insert_with(|| Box::new([0; PS]))[off..off + n].fill(e); }
                else if let Some(s) = p.sym.as_mut() { s[off..off + n].fill(0); }
            }
            len -= n as u64;
            addr += n as u64;
        }
    }
    pub fn read_bytes(&mut self, addr: u64, len: usize) -> (Vec<u8>, Option<Vec<E>>) {
        let mut out = Vec::with_capacity(len);
        let mut sy: Option<Vec<E>> = None;
        let mut a = addr;
        while out.len() < len {
            let off = (a & 4095) as usize;
            let n = (len - out.len()).min(PS - off);
            let start = out.len();
            let p = self.rpage(a);
            out.extend_from_slice(&p.d[off..off + n]);
            if let Some(s) = &p.sym {
                if s[off..off + n].iter().any(|&e| e != 0) {
                    let v = sy.get_or_insert_with(|| vec![0; len]);
                    v[start..start + n].copy_from_slice(&s[off..off + n]);
                }
            }
            a += n as u64;
        }
        (out, sy)
    }
    pub fn write_mixed(&mut self, addr: u64, d: &[u8], s: &Option<Vec<E>>) {
        self.write_bytes(addr, d);
        if let Some(s) = s { for (i, &e) in s.iter().enumerate() { if e != 0 { self.set_byte(addr + i as u64, d[i], e); } } }
    }
    pub fn copy(&mut self, dst: u64, src: u64, len: u64) {
        if len == 0 || dst == src { return; }
        // small in-page fast path
        let (so, doff) = ((src & 4095) as usize, (dst & 4095) as usize);
        if so + len as usize <= PS && doff + len as usize <= PS {
            let sp: *const Page = self.rpage(src);
            unsafe {
                if (*sp).sym.is_none() {
                    let mut tmp = [0u8; PS];
                    let l = len as usize;
                    tmp[..l].copy_from_slice(&(&(*sp).d)[so..so + l]);
                    let dp = self.wpage(dst);
                    dp.d[doff..doff + l].copy_from_slice(&tmp[..l]);
                    if let Some(s) = dp.sym.as_mut() { s[doff..doff + l].fill(0); }
                    return;
                }
            }
        }
        let (d, s) = self.read_bytes(src, len as usize);
        self.write_mixed(dst, &d, &s);
    }
}
