//! Checking allocator. Every block carries a header (size, alignment, magic) and canaries on both
//! sides; deallocation with another layout, double free and out-of-bounds writes are recorded.
//! Blocks are placed at an address that satisfies the requested alignment and no larger one, so that
//! code relying on accidental over-alignment is exposed. Optional poison / quarantine modes make
//! reads of uninitialised or freed memory observable as changed results.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};

pub struct Checking;

// ---------------------------------------------------------------- fenced blocks
//
// In fence mode every block of up to 1 MiB gets pages of its own between inaccessible pages, flush against
// the page after it (`FENCE_END`) or before it (`FENCE_START`): an access one byte outside faults. Freed
// blocks become inaccessible and are reused late, so that a use after free faults, too.
pub const PLAIN: u8 = 0;
pub const FENCE_END: u8 = 1;
pub const FENCE_START: u8 = 2;

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, n: usize, adv: i32) -> i32;
}
const PAGE: usize = 4096;
const REGION: usize = 1 << 42;
const CHUNK: usize = 1 << 32; // one per thread
const CLASSES: [usize; 5] = [1, 4, 16, 64, 256]; // pages per block
const SLOTS: [usize; 5] = [4096, 512, 256, 128, 64];
const DELAY: u32 = 24; // freed slots kept inaccessible

#[repr(C)]
#[derive(Clone, Copy)]
struct Slot {
    size: u32,
    align: u16,
    state: u8, // 0 never used, 1 live, 2 freed
    mode: u8,
}
/// Bookkeeping at the start of each thread's chunk.
#[repr(C)]
struct Chunk {
    lock: AtomicU32,
    fresh: [u32; 5],
    free_len: [u32; 5],
    free_head: [u32; 5],
    free: [[u32; 4096]; 5], // ring buffers of freed slots
    slots: [[Slot; 4096]; 5],
}
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT_CHUNK: AtomicUsize = AtomicUsize::new(0);
/// Make freed fenced blocks inaccessible (else they are only overwritten, and checked when reused).
pub static PROTECT: AtomicU32 = AtomicU32::new(0);
const FREED_FENCE: u8 = 0x99;
pub static FENCED: AtomicUsize = AtomicUsize::new(0);

const fn class_base(k: usize) -> usize {
    // the bookkeeping comes first
    let mut off = 1 << 20;
    let mut i = 0;
    while i < k {
        off += (CLASSES[i] + 1) * SLOTS[i] * PAGE + PAGE;
        i += 1;
    }
    off
}

fn region() -> usize {
    let b = BASE.load(Relaxed);
    if b != 0 {
        return b;
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), REGION, 0, 0x4022, -1, 0) as usize; // PRIVATE | ANONYMOUS | NORESERVE
        if p == usize::MAX {
            return 0;
        }
        match BASE.compare_exchange(0, p, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) {
            Ok(_) => p,
            Err(o) => o,
        }
    }
}

thread_local! {
    static MODE: Cell<u8> = const { Cell::new(PLAIN) };
    static CHUNK_AT: Cell<usize> = const { Cell::new(0) };
    static FAIL_AT: Cell<i64> = const { Cell::new(-1) };
}

/// Where this thread's blocks go from now on.
pub fn set_mode(m: u8) {
    MODE.with(|x| x.set(m));
}
/// Fail the allocation that comes after `n` more successful ones (-1: none).
pub fn fail_after(n: i64) {
    FAIL_AT.with(|x| x.set(n));
}

fn chunk() -> *mut Chunk {
    CHUNK_AT
        .try_with(|c| {
            if c.get() == 0 {
                let r = region();
                let i = NEXT_CHUNK.fetch_add(1, Relaxed);
                if r == 0 || (i + 1) * CHUNK > REGION {
                    return std::ptr::null_mut();
                }
                let p = r + i * CHUNK;
                unsafe { mprotect(p as *mut u8, 1 << 20, 3) };
                c.set(p);
            }
            c.get() as *mut Chunk
        })
        .unwrap_or(std::ptr::null_mut())
}

unsafe fn lock(c: *mut Chunk) {
    while (*c).lock.swap(1, std::sync::atomic::Ordering::Acquire) != 0 {
        std::hint::spin_loop();
    }
}
unsafe fn unlock(c: *mut Chunk) {
    (*c).lock.store(0, std::sync::atomic::Ordering::Release);
}

unsafe fn fence_alloc(mode: u8, size: usize, align: usize, poison: u8) -> *mut u8 {
    let c = chunk();
    if c.is_null() || align > PAGE {
        return std::ptr::null_mut();
    }
    let k = match CLASSES.iter().position(|&p| size <= p * PAGE) {
        Some(k) => k,
        None => return std::ptr::null_mut(),
    };
    lock(c);
    let n = SLOTS[k] as u32;
    let mut reused = false;
    let i = if (*c).free_len[k] > DELAY || ((*c).fresh[k] >= n && (*c).free_len[k] > 0) {
        let h = (*c).free_head[k];
        (*c).free_head[k] = (h + 1) % n;
        (*c).free_len[k] -= 1;
        reused = true;
        (*c).free[k][h as usize] as usize
    } else if (*c).fresh[k] < n {
        (*c).fresh[k] += 1;
        ((*c).fresh[k] - 1) as usize
    } else {
        unlock(c);
        return std::ptr::null_mut();
    };
    let old = (*c).slots[k][i];
    (*c).slots[k][i] = Slot { size: size as u32, align: align as u16, state: 1, mode };
    unlock(c);
    let bytes = CLASSES[k] * PAGE;
    let at = (c as usize + class_base(k) + i * (bytes + PAGE) + PAGE) as *mut u8;
    if !reused || PROTECT.load(Relaxed) != 0 {
        if mprotect(at, bytes, 3) != 0 {
            return std::ptr::null_mut();
        }
    } else {
        let q = slot_block(at, bytes, &old);
        if std::slice::from_raw_parts(q, old.size as usize).iter().any(|&b| b != FREED_FENCE) {
            err("write to freed memory");
        }
    }
    // only the pages the block lies on are written
    let p = if mode == FENCE_END { ((at as usize + bytes - size) & !(align - 1)) as *mut u8 } else { at };
    let (lo, hi) = fence_span(at, bytes, p, size);
    std::ptr::write_bytes(lo, CAN, p as usize - lo as usize);
    std::ptr::write_bytes(p, if poison == 0 { 0 } else { poison }, size);
    std::ptr::write_bytes(p.add(size), CAN, hi as usize - p as usize - size);
    FENCED.fetch_add(1, Relaxed);
    p
}
fn slot_block(at: *mut u8, bytes: usize, s: &Slot) -> *mut u8 {
    if s.mode == FENCE_END {
        ((at as usize + bytes - s.size as usize) & !(s.align as usize - 1)) as *mut u8
    } else {
        at
    }
}
/// The part of the slot around the block that holds canaries.
fn fence_span(at: *mut u8, bytes: usize, p: *mut u8, size: usize) -> (*mut u8, *mut u8) {
    let lo = (p as usize & !(PAGE - 1)).max(at as usize);
    let hi = ((p as usize + size + PAGE - 1) & !(PAGE - 1)).min(at as usize + bytes);
    (lo as *mut u8, hi as *mut u8)
}

/// Returns whether it was a fenced block.
unsafe fn fence_free(p: *mut u8, l: Layout) -> bool {
    let r = BASE.load(Relaxed);
    if r == 0 || (p as usize) < r || p as usize >= r + REGION {
        return false;
    }
    let off = p as usize - r;
    let c = (r + off / CHUNK * CHUNK) as *mut Chunk;
    let off = off % CHUNK;
    let k = match (0..5).rev().find(|&k| off >= class_base(k)) {
        Some(k) => k,
        None => {
            err("free of a foreign pointer");
            return true;
        }
    };
    let bytes = CLASSES[k] * PAGE;
    let i = (off - class_base(k)) / (bytes + PAGE);
    let at = (c as usize + class_base(k) + i * (bytes + PAGE) + PAGE) as *mut u8;
    let s = (*c).slots[k][i];
    let (size, align) = (s.size as usize, s.align as usize);
    let q = slot_block(at, bytes, &s);
    if s.state == 2 {
        err("double free");
        return true;
    }
    if s.state != 1 || q != p {
        err("free of a pointer that is not the start of a block");
        return true;
    }
    if size != l.size() || align != l.align() {
        err("deallocation with a layout different from the allocation");
    }
    let (lo, hi) = fence_span(at, bytes, p, size);
    let before = std::slice::from_raw_parts(lo, p as usize - lo as usize);
    let after = std::slice::from_raw_parts(p.add(size), hi as usize - p as usize - size);
    if before.iter().any(|&b| b != CAN) {
        err("write before the start of a heap block");
    }
    if after.iter().any(|&b| b != CAN) {
        err("write past the end of a heap block");
    }
    if PROTECT.load(Relaxed) != 0 {
        if bytes > 16 * PAGE {
            madvise(at, bytes, 4);
        }
        mprotect(at, bytes, 0);
    } else {
        std::ptr::write_bytes(p, FREED_FENCE, size);
    }
    lock(c);
    (*c).slots[k][i].state = 2;
    let n = SLOTS[k] as u32;
    let t = ((*c).free_head[k] + (*c).free_len[k]) % n;
    (*c).free[k][t as usize] = i as u32;
    (*c).free_len[k] += 1;
    unlock(c);
    true
}

const MAGIC: u64 = 0x5AFE_B10C_600D_F00D;
const FREED: u64 = 0xDEAD_B10C_DEAD_B10C;
const HDR: usize = 32;
const TAIL: usize = 16;
const CAN: u8 = 0xC5;
const MAX_REQ: usize = 6 << 30;

#[repr(C)]
struct Header {
    size: u64,
    align_off: u64, // align << 32 | offset from base
    canary: u64,
    magic: u64,
}

thread_local! {
    static ERR: Cell<Option<&'static str>> = const { Cell::new(None) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static POISON: Cell<u8> = const { Cell::new(0) };
    static QUAR: Cell<bool> = const { Cell::new(false) };
    static QPOS: Cell<usize> = const { Cell::new(0) };
    static QBUF: Cell<[usize; 64]> = const { Cell::new([0; 64]) };
    static SHIFT: Cell<bool> = const { Cell::new(true) };
}
pub static ANY_ERR: AtomicU32 = AtomicU32::new(0);

fn err(m: &'static str) {
    ANY_ERR.fetch_add(1, Relaxed);
    let _ = ERR.try_with(|e| {
        if e.get().is_none() {
            e.set(Some(m));
        }
    });
}

/// Error recorded on this thread since the last call.
pub fn take_err() -> Option<&'static str> {
    ERR.with(|e| e.take())
}
/// Blocks allocated minus blocks freed by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// 0 = leave fresh memory alone, otherwise fill with the byte.
pub fn set_poison(b: u8) {
    POISON.with(|p| p.set(b));
}
pub fn set_quarantine(on: bool) {
    QUAR.with(|q| q.set(on));
    if !on {
        flush();
    }
}
pub fn flush() {
    QBUF.with(|q| {
        let mut b = q.get();
        for x in b.iter_mut() {
            if *x != 0 {
                unsafe { release(*x as *mut u8) };
                *x = 0;
            }
        }
        q.set(b);
    });
}

unsafe fn head(p: *mut u8) -> *mut Header {
    p.sub(HDR) as *mut Header
}

/// user pointers are only as aligned as requested, so the header is accessed unaligned
unsafe fn release(p: *mut u8) {
    let h = head(p).read_unaligned();
    if h.magic != FREED {
        err("write to the header of a freed block (use after free)");
        return;
    }
    let n = h.size as usize;
    for i in 0..n {
        if *p.add(i) != 0xDD {
            err("write to freed memory");
            break;
        }
    }
    real_free(p, &h);
}

unsafe fn real_free(p: *mut u8, h: &Header) {
    let align = (h.align_off >> 32) as usize;
    let off = (h.align_off & 0xFFFF_FFFF) as usize;
    let total = off + h.size as usize + TAIL;
    let base = p.sub(off);
    let ba = align.max(16);
    System.dealloc(base, Layout::from_size_align_unchecked(total, ba));
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, align) = (l.size(), l.align());
        if size > MAX_REQ {
            err("allocation request over 6 GiB");
            return std::ptr::null_mut();
        }
        let fail = FAIL_AT.try_with(|c| c.get()).unwrap_or(-1);
        if fail >= 0 {
            FAIL_AT.with(|c| c.set(fail - 1));
            if fail == 0 {
                return std::ptr::null_mut();
            }
        }
        let mode = MODE.try_with(|c| c.get()).unwrap_or(PLAIN);
        if mode != PLAIN {
            let p = fence_alloc(mode, size, align, POISON.try_with(|c| c.get()).unwrap_or(0));
            if !p.is_null() {
                let _ = LIVE.try_with(|c| c.set(c.get() + 1));
                return p;
            }
        }
        // base is aligned to max(16, align); the user block starts at base + off
        let off = if align >= 16 {
            HDR.max(align)
        } else if SHIFT.try_with(|s| s.get()).unwrap_or(false) {
            HDR + align
        } else {
            HDR + 16
        };
        let total = off + size + TAIL;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align.max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(off);
        head(p).write_unaligned(Header {
            size: size as u64,
            align_off: (align as u64) << 32 | off as u64,
            canary: 0xCACA_CACA_CACA_CACA,
            magic: MAGIC,
        });
        std::ptr::write_bytes(p.add(size), CAN, TAIL);
        let _ = LIVE.try_with(|c| c.set(c.get() + 1));
        let b = POISON.try_with(|c| c.get()).unwrap_or(0);
        if b != 0 {
            std::ptr::write_bytes(p, b, size);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if fence_free(p, l) {
            let _ = LIVE.try_with(|c| c.set(c.get() - 1));
            return;
        }
        let h = head(p).read_unaligned();
        if h.magic == FREED {
            err("double free");
            return;
        }
        if h.magic != MAGIC || h.canary != 0xCACA_CACA_CACA_CACA {
            err("heap block header overwritten (write before the block) or free of a foreign pointer");
            return;
        }
        if h.size as usize != l.size() || (h.align_off >> 32) as usize != l.align() {
            err("deallocation with a layout different from the allocation");
        }
        let n = h.size as usize;
        let tail = (p.add(n) as *const u128).read_unaligned();
        if tail != u128::from_ne_bytes([CAN; 16]) {
            err("write past the end of a heap block");
        }
        let _ = LIVE.try_with(|c| c.set(c.get() - 1));
        if QUAR.try_with(|q| q.get()).unwrap_or(false) {
            set_magic(p, FREED);
            std::ptr::write_bytes(p, 0xDD, n);
            let old = QPOS
                .try_with(|qp| {
                    let i = qp.get();
                    qp.set((i + 1) % 64);
                    QBUF.with(|q| {
                        let ptr = q.as_ptr() as *mut usize;
                        let old = *ptr.add(i);
                        *ptr.add(i) = p as usize;
                        old
                    })
                })
                .unwrap_or(0);
            if old != 0 {
                release(old as *mut u8);
            }
        } else {
            set_magic(p, FREED);
            real_free(p, &h);
        }
    }
}

unsafe fn set_magic(p: *mut u8, m: u64) {
    std::ptr::addr_of_mut!((*head(p)).magic).write_unaligned(m);
}
