//! The receiving end of LLVM's coverage instrumentation (8-bit counters per edge, comparison
//! operands). A crate of its own, because it must not be instrumented itself. Only edges and
//! comparisons inside functions of the crate under test count, wherever they were instantiated.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

static CNT_LO: AtomicUsize = AtomicUsize::new(0);
static CNT_HI: AtomicUsize = AtomicUsize::new(0);
static PC_LO: AtomicUsize = AtomicUsize::new(0);
static PC_HI: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: usize, b: usize) {
    CNT_LO.store(a, Relaxed);
    CNT_HI.store(b, Relaxed);
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(a: usize, b: usize) {
    PC_LO.store(a, Relaxed);
    PC_HI.store(b, Relaxed);
}

macro_rules! cmp {
    ($name:ident, $($l:literal),*) => {
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $name(_a: u64, _b: u64) {
            core::arch::naked_asm!($($l,)* "mov rdx, [rsp]", "jmp {f}", f = sym on_cmp)
        }
    };
}
macro_rules! const_cmp {
    ($name:ident, $($l:literal),*) => {
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $name(_a: u64, _b: u64) {
            core::arch::naked_asm!($($l,)* "mov rdx, [rsp]", "jmp {f}", f = sym on_const_cmp)
        }
    };
}
cmp!(__sanitizer_cov_trace_cmp8,);
cmp!(__sanitizer_cov_trace_cmp4, "mov edi, edi", "mov esi, esi");
cmp!(__sanitizer_cov_trace_cmp2, "movzx edi, di", "movzx esi, si");
cmp!(__sanitizer_cov_trace_cmp1, "movzx edi, dil", "movzx esi, sil");
const_cmp!(__sanitizer_cov_trace_const_cmp8,);
const_cmp!(__sanitizer_cov_trace_const_cmp4, "mov edi, edi", "mov esi, esi");
const_cmp!(__sanitizer_cov_trace_const_cmp2, "movzx edi, di", "movzx esi, si");
const_cmp!(__sanitizer_cov_trace_const_cmp1, "movzx edi, dil", "movzx esi, sil");
#[unsafe(naked)]
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, _c: *const u64) {
    core::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym on_switch)
}

/// comparison features of the current run
const VP: usize = 1 << 18;
static VPMAP: [AtomicU8; VP] = [const { AtomicU8::new(0) }; VP];
static TOUCHED: [AtomicUsize; 8192] = [const { AtomicUsize::new(0) }; 8192];
static NTOUCHED: AtomicUsize = AtomicUsize::new(0);
/// constants the code compared with
static CONSTS: [AtomicUsize; 256] = [const { AtomicUsize::new(0) }; 256];
static NCONSTS: AtomicUsize = AtomicUsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);

/// one byte per 16 bytes of code: belongs to the crate under test
static TEXT_LO: AtomicUsize = AtomicUsize::new(0);
static TEXT_N: AtomicUsize = AtomicUsize::new(0);
static TEXT: AtomicUsize = AtomicUsize::new(0);

#[inline]
fn ours(pc: usize) -> bool {
    let i = pc.wrapping_sub(TEXT_LO.load(Relaxed)) >> 4;
    i < TEXT_N.load(Relaxed) && unsafe { *(TEXT.load(Relaxed) as *const u8).add(i) != 0 }
}

#[inline]
fn feature(h: usize) {
    let i = h & (VP - 1);
    if VPMAP[i].load(Relaxed) == 0 {
        VPMAP[i].store(1, Relaxed);
        let n = NTOUCHED.fetch_add(1, Relaxed);
        if n < TOUCHED.len() {
            TOUCHED[n].store(i, Relaxed);
        }
    }
}

#[inline]
fn profile(a: u64, b: u64, pc: usize) {
    let h = pc.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
    let d = if a == b { 0 } else { 64 - a.abs_diff(b).leading_zeros() as usize };
    feature(h.wrapping_mul(67).wrapping_add(d));
    // small distances one by one
    if a != b && a.abs_diff(b) < 16 {
        feature(h.wrapping_mul(67).wrapping_add(100 + (a.wrapping_sub(b) & 31) as usize));
    }
}

/// comparisons made so far, in all instrumented code
static WORK: AtomicU64 = AtomicU64::new(0);
pub fn work() -> u64 {
    WORK.load(Relaxed)
}
#[inline]
fn count() {
    WORK.store(WORK.load(Relaxed).wrapping_add(1), Relaxed);
}

extern "C" fn on_cmp(a: u64, b: u64, pc: usize) {
    count();
    if ON.load(Relaxed) && ours(pc) {
        profile(a, b, pc);
    }
}
extern "C" fn on_const_cmp(a: u64, b: u64, pc: usize) {
    count();
    if ON.load(Relaxed) && ours(pc) {
        profile(a, b, pc);
        // the first operand is the constant
        if a > 2 && a < 1 << 20 {
            let n = NCONSTS.load(Relaxed);
            let h = (a as usize).wrapping_mul(0x9E37_79B1) >> 7;
            let slot = &CONSTS[h & 255];
            if slot.load(Relaxed) != a as usize {
                slot.store(a as usize, Relaxed);
                NCONSTS.store(n + 1, Relaxed);
            }
        }
    }
}
extern "C" fn on_switch(v: u64, c: *const u64, pc: usize) {
    count();
    if ON.load(Relaxed) && ours(pc) {
        let n = unsafe { *c };
        for i in 0..n.min(16) {
            profile(v, unsafe { *c.add(2 + i as usize) }, pc + i as usize);
        }
    }
}

/// the crate a mangled (v0) function name belongs to
fn krate(sym: &str) -> Option<&str> {
    let mut s = sym.strip_prefix("_R")?.as_bytes();
    let digits = |s: &[u8]| s.iter().take_while(|b| b.is_ascii_digit()).count();
    let disambiguator = |s: &mut &[u8]| {
        if s.first() == Some(&b's') {
            if let Some(i) = s.iter().position(|b| *b == b'_') {
                *s = &s[i + 1..];
            }
        }
    };
    loop {
        match s.first()? {
            b'I' => s = &s[1..],
            b'N' => s = s.get(2..)?,
            b'M' | b'X' => {
                s = &s[1..];
                disambiguator(&mut s);
            }
            b'C' => {
                s = &s[1..];
                disambiguator(&mut s);
                let n = digits(s);
                let len: usize = std::str::from_utf8(&s[..n]).ok()?.parse().ok()?;
                s = &s[n..];
                if s.first() == Some(&b'_') {
                    s = &s[1..];
                }
                return std::str::from_utf8(s.get(..len)?).ok();
            }
            _ => return None,
        }
    }
}

/// start and end of the functions of the named crate, as addresses of this process
fn functions(name: &str) -> Option<Vec<(usize, usize)>> {
    unsafe extern "C" fn first(info: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> i32 {
        *(out as *mut usize) = (*info).dlpi_addr as usize;
        1
    }
    let mut base = 0usize;
    unsafe { libc::dl_iterate_phdr(Some(first), &mut base as *mut usize as *mut libc::c_void) };
    let d = std::fs::read("/proc/self/exe").ok()?;
    let u = |at: usize, n: usize| -> Option<usize> {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(d.get(at..at + n)?);
        Some(u64::from_le_bytes(b) as usize)
    };
    let (shoff, shent, shnum) = (u(0x28, 8)?, u(0x3A, 2)?, u(0x3C, 2)?);
    let mut out = Vec::new();
    for i in 0..shnum {
        let h = shoff + i * shent;
        if u(h + 4, 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u(h + 0x18, 8)?, u(h + 0x20, 8)?, u(h + 0x28, 4)?);
        let stroff = u(shoff + link * shent + 0x18, 8)?;
        for s in (off..off + size).step_by(24) {
            let (nm, info, val, len) = (u(s, 4)?, u(s + 4, 1)?, u(s + 8, 8)?, u(s + 16, 8)?);
            if info & 15 != 2 || len == 0 {
                continue;
            }
            let z = &d[stroff + nm..];
            let e = z.iter().position(|b| *b == 0)?;
            if std::str::from_utf8(&z[..e]).ok().and_then(krate) == Some(name) {
                out.push((base + val, base + val + len));
            }
        }
    }
    out.sort_unstable();
    Some(out)
}

pub struct Coverage {
    /// runs of counters that belong to the crate under test
    runs: Vec<(usize, usize)>,
    /// bit per hit-count class already seen
    virgin: Vec<u8>,
    vseen: Vec<u64>,
    pub edges: usize,
    pub features: usize,
    pub total_edges: usize,
}

fn class(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

impl Coverage {
    /// None if the binary is not instrumented
    pub fn new(name: &str) -> Option<Coverage> {
        let fns = functions(name)?;
        let (lo, hi) = (CNT_LO.load(Relaxed), CNT_HI.load(Relaxed));
        let (plo, phi) = (PC_LO.load(Relaxed), PC_HI.load(Relaxed));
        if fns.is_empty() || hi <= lo || (phi - plo) / 16 != hi - lo {
            return None;
        }
        let (t0, t1) = (fns[0].0 & !15, fns.iter().map(|f| f.1).max()?);
        let mut text = vec![0u8; (t1 - t0) / 16 + 1];
        for (a, b) in &fns {
            for i in (a - t0) / 16..=(b - 1 - t0) / 16 {
                text[i] = 1;
            }
        }
        let text = text.leak();
        TEXT_LO.store(t0, Relaxed);
        TEXT.store(text.as_ptr() as usize, Relaxed);
        TEXT_N.store(text.len(), Relaxed);
        let mut runs: Vec<(usize, usize)> = Vec::new();
        let mut total = 0;
        for i in 0..hi - lo {
            let pc = unsafe { *((plo + 16 * i) as *const usize) };
            if ours(pc) {
                total += 1;
                match runs.last_mut() {
                    Some(r) if r.1 == i => r.1 = i + 1,
                    _ => runs.push((i, i + 1)),
                }
            }
        }
        Some(Coverage { runs, virgin: vec![0; hi - lo], vseen: vec![0; VP / 64], edges: 0, features: 0, total_edges: total })
    }

    pub fn start(&mut self) {
        let (lo, hi) = (CNT_LO.load(Relaxed), CNT_HI.load(Relaxed));
        unsafe { std::ptr::write_bytes(lo as *mut u8, 0, hi - lo) };
        let n = NTOUCHED.swap(0, Relaxed);
        if n > TOUCHED.len() {
            for x in VPMAP.iter() {
                x.store(0, Relaxed);
            }
        } else {
            for x in &TOUCHED[..n] {
                VPMAP[x.load(Relaxed)].store(0, Relaxed);
            }
        }
        ON.store(true, Relaxed);
    }

    /// (new edges or hit counts, new comparison features) of the run that ends here
    pub fn stop(&mut self) -> (usize, usize) {
        ON.store(false, Relaxed);
        let lo = CNT_LO.load(Relaxed) as *const u8;
        let (mut new, mut vnew) = (0, 0);
        for (a, b) in &self.runs {
            for i in *a..*b {
                let c = unsafe { *lo.add(i) };
                if c != 0 {
                    let k = class(c);
                    let v = &mut self.virgin[i];
                    if *v & k == 0 {
                        if *v == 0 {
                            self.edges += 1;
                        }
                        *v |= k;
                        new += 1;
                    }
                }
            }
        }
        let n = NTOUCHED.load(Relaxed).min(TOUCHED.len());
        for x in &TOUCHED[..n] {
            let x = x.load(Relaxed);
            let w = &mut self.vseen[x / 64];
            if *w >> (x % 64) & 1 == 0 {
                *w |= 1 << (x % 64);
                vnew += 1;
            }
        }
        self.features += new + vnew;
        (new, vnew)
    }

    /// a constant the crate compared something with
    pub fn constant(&self, r: usize) -> usize {
        let n = CONSTS.len();
        for k in 0..n {
            let c = CONSTS[(r + k) % n].load(Relaxed);
            if c != 0 {
                return c;
            }
        }
        0
    }
}
