//! Fatal signals raised while a case runs are verdicts (the library crashed); raised elsewhere they are
//! harness errors. The handler only uses async-signal-safe calls.
use std::ffi::c_void;

#[repr(C)]
struct SigAction {
    handler: usize,
    flags_mask: [u8; 144], // mask (128) + flags (4, padded) + restorer (8)
}
#[repr(C)]
struct StackT {
    sp: *mut c_void,
    flags: i32,
    size: usize,
}
extern "C" {
    fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
    fn sigaltstack(new: *const StackT, old: *mut StackT) -> i32;
    fn write(fd: i32, b: *const c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

fn put(b: &mut [u8; 128], n: &mut usize, s: &[u8]) {
    for &c in s {
        b[*n] = c;
        *n += 1;
    }
}
fn num(b: &mut [u8; 128], n: &mut usize, mut v: u64) {
    let mut t = [0u8; 20];
    let mut k = 0;
    loop {
        t[k] = b'0' + (v % 10) as u8;
        v /= 10;
        k += 1;
        if v == 0 {
            break;
        }
    }
    while k > 0 {
        k -= 1;
        put(b, n, &t[k..k + 1]);
    }
}

extern "C" fn on_fatal(sig: i32) {
    let (sp, idx) = crate::engine::CUR.try_with(|c| c.get()).unwrap_or((u64::MAX, 0));
    let mut b = [0u8; 128];
    let mut n = 0;
    if sp == u64::MAX {
        put(&mut b, &mut n, b"\nHARNESS-CRASH signal=");
        num(&mut b, &mut n, sig as u64);
    } else {
        put(&mut b, &mut n, b"\nCRASH signal=");
        num(&mut b, &mut n, sig as u64);
        put(&mut b, &mut n, b" space=");
        num(&mut b, &mut n, sp);
        put(&mut b, &mut n, b" index=");
        num(&mut b, &mut n, idx);
    }
    put(&mut b, &mut n, b"\n");
    unsafe {
        write(1, b.as_ptr() as *const c_void, n);
        _exit(if sp == u64::MAX { 3 } else { 77 })
    }
}

pub fn altstack() {
    unsafe {
        let size = 1 << 16;
        let mem = std::alloc::System;
        use std::alloc::GlobalAlloc;
        let p = mem.alloc(std::alloc::Layout::from_size_align_unchecked(size, 16));
        let s = StackT { sp: p as *mut c_void, flags: 0, size };
        sigaltstack(&s, std::ptr::null_mut());
    }
}

pub fn set_handler(sig: i32, f: usize, flags: i32) {
    let mut a = SigAction { handler: f, flags_mask: [0; 144] };
    a.flags_mask[128..132].copy_from_slice(&flags.to_ne_bytes());
    unsafe {
        sigaction(sig, &a, std::ptr::null_mut());
    }
}

pub fn install() {
    altstack();
    const SA_ONSTACK: i32 = 0x0800_0000;
    for sig in [4, 6, 7, 8, 11] {
        set_handler(sig, on_fatal as *const () as usize, SA_ONSTACK);
    }
}
