//! Global allocator with a header per block: detects double frees and frees of foreign
//! pointers (abort), poisons freed memory (a read after free sees 0xDD), keeps freed blocks
//! in a quarantine and checks on their way out that nobody wrote to them, and counts live
//! blocks and bytes. In "chaos" mode it also yields the thread at random allocations.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub struct Alloc;

const LIVE: u64 = 0x11fe_b10c_a110_c8ed;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;
const RING: usize = 4096;
const MAX_QUARANTINED: usize = 4096;

static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);
static QUARANTINE: AtomicBool = AtomicBool::new(false);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);
pub static CHAOS: AtomicU32 = AtomicU32::new(0);
static CHAOS_SEED: AtomicU64 = AtomicU64::new(1);
static LOCK: AtomicBool = AtomicBool::new(false);
static POISON: AtomicU8 = AtomicU8::new(0xdd);
static POS: AtomicUsize = AtomicUsize::new(0);
static mut SLOTS: [(usize, usize, usize, u8); RING] = [(0, 0, 0, 0); RING];

pub fn live() -> (i64, i64) {
    (LIVE_BYTES.load(SeqCst), LIVE_BLOCKS.load(SeqCst))
}
/// bytes allocated so far, also those freed again
pub fn total() -> u64 {
    TOTAL_BYTES.load(SeqCst)
}
pub fn set_quarantine(on: bool) {
    QUARANTINE.store(on, SeqCst);
}
/// what freed memory is filled with
pub fn set_poison(b: u8) {
    POISON.store(b, SeqCst);
}
/// Above this many live bytes the process ends with code 77: out of memory is not a verdict.
pub fn set_limit(bytes: i64) {
    LIMIT.store(bytes, SeqCst);
}
/// yield the thread at about n of 256 allocations (0 = never)
pub fn set_chaos(n: u32, seed: u64) {
    CHAOS_SEED.store(seed | 1, SeqCst);
    CHAOS.store(n, SeqCst);
}

thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0) };
}

pub fn chaos_point() {
    let c = CHAOS.load(Relaxed);
    if c == 0 {
        return;
    }
    let _ = RNG.try_with(|r| {
        let mut x = r.get();
        if x == 0 {
            x = CHAOS_SEED.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        if ((x >> 20) as u32 & 0xff) < c {
            match (x >> 40) & 7 {
                0..=3 => unsafe {
                    libc::sched_yield();
                },
                4..=6 => {
                    for _ in 0..((x >> 44) & 0x3ff) {
                        std::hint::spin_loop();
                    }
                }
                _ => {
                    let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000 };
                    unsafe {
                        libc::nanosleep(&ts, std::ptr::null_mut());
                    }
                }
            }
        }
    });
}

fn die(msg: &str) -> ! {
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort()
    }
}

fn pad(layout: &Layout) -> usize {
    layout.align().max(16)
}

unsafe fn outer(layout: &Layout) -> Layout {
    Layout::from_size_align_unchecked(layout.size() + pad(layout), layout.align().max(16))
}

unsafe fn release(base: usize, size: usize, align: usize) {
    let lay = Layout::from_size_align_unchecked(size, align);
    System.dealloc(base as *mut u8, lay);
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        chaos_point();
        let o = outer(&layout);
        let base = System.alloc(o);
        if base.is_null() {
            libc::_exit(77);
        }
        let n = LIVE_BYTES.fetch_add(layout.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_add(1, Relaxed);
        TOTAL_BYTES.fetch_add(layout.size() as u64, Relaxed);
        if n > LIMIT.load(Relaxed) {
            libc::_exit(77);
        }
        let p = base.add(pad(&layout));
        *(p.sub(16) as *mut u64) = LIVE;
        *(p.sub(8) as *mut u64) = layout.size() as u64;
        // never hand out memory that happens to be zero
        std::ptr::write_bytes(p, 0xcd, layout.size().min(4096));
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        chaos_point();
        let hdr = p.sub(16) as *mut u64;
        if *hdr != LIVE {
            if *hdr == DEAD {
                die("rv-alloc: double free\n");
            }
            die("rv-alloc: free of a block that was not allocated\n");
        }
        if *(p.sub(8) as *mut u64) != layout.size() as u64 {
            die("rv-alloc: free with the wrong layout\n");
        }
        *hdr = DEAD;
        let poison = POISON.load(Relaxed);
        std::ptr::write_bytes(p, poison, layout.size());
        LIVE_BYTES.fetch_sub(layout.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        let padn = pad(&layout);
        let o = outer(&layout);
        let base = p.sub(padn) as usize;
        if !QUARANTINE.load(Relaxed) || layout.size() > MAX_QUARANTINED {
            release(base, o.size(), o.align());
            return;
        }
        while LOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let slots = &mut *std::ptr::addr_of_mut!(SLOTS);
        let i = POS.load(Relaxed);
        let old = slots[i];
        slots[i] = (base, o.size(), padn, poison);
        POS.store((i + 1) % RING, Relaxed);
        if old.0 != 0 {
            let padn = old.2;
            let data = (old.0 + padn) as *const u8;
            for k in 0..old.1 - padn {
                if *data.add(k) != old.3 {
                    die("rv-alloc: write to freed memory\n");
                }
            }
            release(old.0, old.1, old.2.max(16));
        }
        LOCK.store(false, Release);
    }
}
