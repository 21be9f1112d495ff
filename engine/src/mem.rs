//! Byte addressed copy-on-write memory with an optional symbolic shadow per page.
use crate::term::*;
use std::cell::Cell;
use std::rc::Rc;

pub const PAGE: u64 = 4096;
const L2: usize = 1024;
const TLB: usize = 256;

pub struct Page {
    pub data: [u8; 4096],
    pub sh: Option<Box<[T; 4096]>>,
}
impl Clone for Page {
    fn clone(&self) -> Self {
        Page { data: self.data, sh: self.sh.clone() }
    }
}
type Tab = Vec<Option<Rc<Page>>>;

#[derive(Clone, Copy)]
struct Ent {
    page: u64,
    ptr: *mut Page,
    w: bool,
}

pub struct Mem {
    top: Vec<Option<Rc<Tab>>>, // 1024 x 4MB = 4GB
    zero: Rc<Page>,
    tlb: Box<[Cell<Ent>; TLB]>,
}

#[derive(Debug)]
pub struct Fault(pub u64);

const EMPTY: Ent = Ent { page: u64::MAX, ptr: std::ptr::null_mut(), w: false };

impl Clone for Mem {
    fn clone(&self) -> Self {
        // both sides must notice that pages are shared from now on
        for e in self.tlb.iter() {
            let mut x = e.get();
            x.w = false;
            e.set(x);
        }
        Mem { top: self.top.clone(), zero: self.zero.clone(), tlb: new_tlb() }
    }
}
fn new_tlb() -> Box<[Cell<Ent>; TLB]> {
    Box::new(std::array::from_fn(|_| Cell::new(EMPTY)))
}

impl Mem {
    pub fn new() -> Mem {
        Mem { top: vec![None; 1024], zero: Rc::new(Page { data: [0; 4096], sh: None }), tlb: new_tlb() }
    }
    #[inline(always)]
    fn slot(pg: u64) -> usize {
        (pg as usize ^ (pg as usize >> 8)) & (TLB - 1)
    }
    /// map zero pages
    pub fn map(&mut self, start: u64, len: u64) {
        let mut pg = start / PAGE;
        let end = (start + len + PAGE - 1) / PAGE;
        while pg < end {
            let t = (pg as usize) / L2;
            if self.top[t].is_none() {
                self.top[t] = Some(Rc::new(vec![None; L2]));
            }
            let tab = Rc::make_mut(self.top[t].as_mut().unwrap());
            let e = &mut tab[pg as usize % L2];
            if e.is_none() {
                *e = Some(self.zero.clone());
            }
            pg += 1;
        }
    }
    #[inline(always)]
    pub fn rpage(&self, addr: u64) -> Result<*const Page, Fault> {
        let pg = addr >> 12;
        let e = self.tlb[Self::slot(pg)].get();
        if e.page == pg {
            return Ok(e.ptr);
        }
        self.rslow(addr)
    }
    #[cold]
    fn rslow(&self, addr: u64) -> Result<*const Page, Fault> {
        let pg = addr >> 12;
        if pg >= (1 << 20) {
            return Err(Fault(addr));
        }
        let p = match &self.top[pg as usize / L2] {
            Some(t) => match &t[pg as usize % L2] {
                Some(p) => Rc::as_ptr(p),
                None => return Err(Fault(addr)),
            },
            None => return Err(Fault(addr)),
        };
        self.tlb[Self::slot(pg)].set(Ent { page: pg, ptr: p as *mut Page, w: false });
        Ok(p)
    }
    #[inline(always)]
    pub fn wpage(&mut self, addr: u64) -> Result<*mut Page, Fault> {
        let pg = addr >> 12;
        let e = self.tlb[Self::slot(pg)].get();
        if e.page == pg && e.w {
            return Ok(e.ptr);
        }
        self.wslow(addr)
    }
    #[cold]
    fn wslow(&mut self, addr: u64) -> Result<*mut Page, Fault> {
        let pg = addr >> 12;
        if pg >= (1 << 20) {
            return Err(Fault(addr));
        }
        let t = match &mut self.top[pg as usize / L2] {
            Some(t) => t,
            None => return Err(Fault(addr)),
        };
        if t[pg as usize % L2].is_none() {
            return Err(Fault(addr));
        }
        let tab = Rc::make_mut(t);
        let p = Rc::make_mut(tab[pg as usize % L2].as_mut().unwrap()) as *mut Page;
        self.tlb[Self::slot(pg)].set(Ent { page: pg, ptr: p, w: true });
        Ok(p)
    }
    /// concrete little endian read; Ok(None) when a symbolic byte is involved
    #[inline(always)]
    pub fn read(&self, addr: u64, n: u32) -> Result<Option<u64>, Fault> {
        let off = (addr & 4095) as usize;
        if off + n as usize <= 4096 {
            let p = unsafe { &*self.rpage(addr)? };
            if let Some(sh) = &p.sh {
                for i in 0..n as usize {
                    if sh[off + i] != 0 {
                        return Ok(None);
                    }
                }
            }
            unsafe {
                let q = p.data.as_ptr().add(off);
                return Ok(Some(match n {
                    1 => *q as u64,
                    2 => (q as *const u16).read_unaligned() as u64,
                    4 => (q as *const u32).read_unaligned() as u64,
                    8 => (q as *const u64).read_unaligned(),
                    _ => {
                        let mut v = 0u64;
                        for i in 0..n as usize {
                            v |= (*q.add(i) as u64) << (8 * i);
                        }
                        v
                    }
                }));
            }
        }
        let mut v = 0u64;
        for i in 0..n as u64 {
            match self.read(addr + i, 1)? {
                Some(b) => v |= b << (8 * i),
                None => return Ok(None),
            }
        }
        Ok(Some(v))
    }
    /// (concrete byte, symbolic byte or 0)
    pub fn byte(&self, addr: u64) -> Result<(u8, T), Fault> {
        let off = (addr & 4095) as usize;
        let p = unsafe { &*self.rpage(addr)? };
        let t = match &p.sh {
            Some(s) => s[off],
            None => 0,
        };
        Ok((p.data[off], t))
    }
    #[inline(always)]
    pub fn write(&mut self, addr: u64, n: u32, v: u64) -> Result<(), Fault> {
        let off = (addr & 4095) as usize;
        if off + n as usize <= 4096 {
            let p = unsafe { &mut *self.wpage(addr)? };
            if let Some(sh) = &mut p.sh {
                for i in 0..n as usize {
                    sh[off + i] = 0;
                }
            }
            unsafe {
                let q = p.data.as_mut_ptr().add(off);
                match n {
                    1 => *q = v as u8,
                    2 => (q as *mut u16).write_unaligned(v as u16),
                    4 => (q as *mut u32).write_unaligned(v as u32),
                    8 => (q as *mut u64).write_unaligned(v),
                    _ => {
                        for i in 0..n as usize {
                            *q.add(i) = (v >> (8 * i)) as u8;
                        }
                    }
                }
            }
            return Ok(());
        }
        for i in 0..n as u64 {
            self.write(addr + i, 1, v >> (8 * i))?;
        }
        Ok(())
    }
    pub fn write_sym(&mut self, addr: u64, t: T) -> Result<(), Fault> {
        let off = (addr & 4095) as usize;
        let p = unsafe { &mut *self.wpage(addr)? };
        let sh = p.sh.get_or_insert_with(|| Box::new([0; 4096]));
        sh[off] = t;
        p.data[off] = 0;
        Ok(())
    }
    pub fn write_bytes(&mut self, addr: u64, b: &[u8]) -> Result<(), Fault> {
        let mut i = 0;
        while i < b.len() {
            let a = addr + i as u64;
            let off = (a & 4095) as usize;
            let k = (4096 - off).min(b.len() - i);
            let p = unsafe { &mut *self.wpage(a)? };
            p.data[off..off + k].copy_from_slice(&b[i..i + k]);
            if let Some(sh) = &mut p.sh {
                sh[off..off + k].fill(0);
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, addr: u64, n: u64, v: u8) -> Result<(), Fault> {
        let mut i = 0;
        while i < n {
            let a = addr + i;
            let off = (a & 4095) as usize;
            let k = (4096 - off).min((n - i) as usize);
            let p = unsafe { &mut *self.wpage(a)? };
            p.data[off..off + k].fill(v);
            if let Some(sh) = &mut p.sh {
                sh[off..off + k].fill(0);
            }
            i += k as u64;
        }
        Ok(())
    }
    /// memmove semantics
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let so = (src & 4095) as usize;
        let d_o = (dst & 4095) as usize;
        let n_ = n as usize;
        if so + n_ <= 4096 && d_o + n_ <= 4096 {
            let d = self.wpage(dst)?;
            let s = self.rpage(src)?;
            unsafe {
                std::ptr::copy((*s).data.as_ptr().add(so), (*d).data.as_mut_ptr().add(d_o), n_);
                let ssh = match &(*s).sh {
                    Some(x) => x.as_ptr(),
                    None => std::ptr::null(),
                };
                if !ssh.is_null() && (0..n_).any(|i| *ssh.add(so + i) != 0) {
                    let dsh = (*d).sh.get_or_insert_with(|| Box::new([0; 4096])).as_mut_ptr();
                    // source shadow may be the same box
                    let ssh = match &(*s).sh {
                        Some(x) => x.as_ptr(),
                        None => unreachable!(),
                    };
                    std::ptr::copy(ssh.add(so), dsh.add(d_o), n_);
                } else if let Some(x) = &mut (*d).sh {
                    x[d_o..d_o + n_].fill(0);
                }
            }
            return Ok(());
        }
        let mut buf = vec![0u8; n_];
        let mut sh: Vec<T> = vec![];
        let mut i = 0;
        while i < n_ {
            let a = src + i as u64;
            let off = (a & 4095) as usize;
            let k = (4096 - off).min(n_ - i);
            let p = unsafe { &*self.rpage(a)? };
            buf[i..i + k].copy_from_slice(&p.data[off..off + k]);
            if let Some(x) = &p.sh {
                if sh.is_empty() {
                    sh = vec![0; n_];
                }
                sh[i..i + k].copy_from_slice(&x[off..off + k]);
            }
            i += k;
        }
        let mut i = 0;
        while i < n_ {
            let a = dst + i as u64;
            let off = (a & 4095) as usize;
            let k = (4096 - off).min(n_ - i);
            let p = unsafe { &mut *self.wpage(a)? };
            p.data[off..off + k].copy_from_slice(&buf[i..i + k]);
            if !sh.is_empty() && sh[i..i + k].iter().any(|&t| t != 0) {
                let x = p.sh.get_or_insert_with(|| Box::new([0; 4096]));
                x[off..off + k].copy_from_slice(&sh[i..i + k]);
            } else if let Some(x) = &mut p.sh {
                x[off..off + k].fill(0);
            }
            i += k;
        }
        Ok(())
    }
    pub fn mapped(&self, addr: u64) -> bool {
        self.rpage(addr).is_ok()
    }
}
