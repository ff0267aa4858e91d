//! Drives the guest heap: allocates blocks as told by the input, fills them, and reports their
//! addresses and whether all of them still hold what was put there.
#![no_std]
#![no_main]
extern crate alloc;
extern crate runtime;
use alloc::alloc::{alloc as take, alloc_zeroed, dealloc, realloc};
use core::{alloc::Layout, panic::PanicInfo};
use macros::entry;

#[panic_handler]
fn panic(_: &PanicInfo) -> ! {
    unsafe { core::ptr::write_volatile(core::ptr::addr_of_mut!(OUTPUT[0]), 0xDEAD) };
    loop {}
}

pub const REQ: usize = 16;

#[repr(C)]
#[derive(Clone, Copy)]
struct Request {
    size: u16,
    /// Upper bit of the first one: use nearly all of the stack before the first request.
    log_align: u8,
    /// Low two bits: 0 plain, 1 zeroed, 2 resized from half the size, 3 freed at once and taken again.
    /// Upper bits: the size is shifted left by this much.
    kind: u8,
}

#[no_mangle]
#[link_section = ".inpdata"]
static INPUT: [Request; REQ] = [Request { size: 0, log_align: 0, kind: 0 }; REQ];
/// [0]: 1 running, 2 done, 0xDEAD stopped; [1]: blocks granted; [2]: intact mask; [3]: zeroed mask;
/// [4]: stack pointer; [5..]: addresses
#[no_mangle]
#[link_section = ".outdata"]
static mut OUTPUT: [u32; 5 + REQ] = [0; 5 + REQ];
/// Neighbours of the heap that must not change.
static mut DATA: [u32; 8] = [0x1111_1111; 8];
static mut ZERO: [u32; 8] = [0; 8];

fn stop() -> ! {
    out(0, 0xDEAD);
    loop {}
}

fn out(k: usize, v: u32) {
    unsafe { core::ptr::write_volatile((core::ptr::addr_of_mut!(OUTPUT) as *mut u32).add(k), v) };
}

/// Leaves something other than zero in the memory between the statics and the stack.
#[inline(never)]
fn deep(limit: usize) -> u32 {
    let mut a = [0u32; 16];
    for x in a.iter_mut() {
        unsafe { core::ptr::write_volatile(x, 0xA5A5_A5A5) };
    }
    let below = if a.as_ptr() as usize > limit { deep(limit) } else { 0 };
    below + unsafe { core::ptr::read_volatile(&a[3]) }
}

#[entry]
fn main() {
    let req = unsafe { core::ptr::read_volatile(&INPUT as *const [Request; REQ]) };
    out(0, 1);
    if req[0].log_align & 0x80 != 0 {
        extern "C" {
            static _end: u8;
        }
        deep(core::ptr::addr_of!(_end) as usize + 256);
    }
    let sp: u32;
    unsafe { core::arch::asm!("mv {}, sp", out(reg) sp) };
    out(4, sp);
    let mut at: [*mut u8; REQ] = [core::ptr::null_mut(); REQ];
    let (mut zeroed, mut n) = (0u32, 0usize);
    for (k, r) in req.iter().enumerate() {
        let size = (r.size as usize) << (r.kind >> 2);
        if size == 0 {
            continue;
        }
        let Ok(layout) = Layout::from_size_align(size, 1 << (r.log_align & 31)) else {
            out(0, 0xBAD);
            loop {}
        };
        let p = unsafe {
            match r.kind & 3 {
                1 => alloc_zeroed(layout),
                2 if size > 1 => {
                    let half = Layout::from_size_align_unchecked(size / 2, layout.align());
                    let p = take(half);
                    if p.is_null() {
                        stop();
                    }
                    for j in 0..size / 2 {
                        *p.add(j) = (j * 3 + k) as u8;
                    }
                    let q = realloc(p, half, size);
                    if q.is_null() {
                        stop();
                    }
                    // The old content moves along.
                    for j in 0..size / 2 {
                        if *q.add(j) != (j * 3 + k) as u8 {
                            out(0, 0xBAD);
                            loop {}
                        }
                    }
                    q
                }
                3 => {
                    let p = take(layout);
                    dealloc(p, layout);
                    take(layout)
                }
                _ => take(layout),
            }
        };
        if p.is_null() {
            stop();
        }
        if r.kind & 3 == 1 && (0..size).all(|j| unsafe { *p.add(j) } == 0) {
            zeroed |= 1 << k;
        }
        for j in 0..size {
            unsafe { core::ptr::write_volatile(p.add(j), (j as u8).wrapping_mul(5) ^ (k as u8 * 17 + 1)) };
        }
        at[k] = p;
        out(5 + k, p as u32);
        n += 1;
        out(1, n as u32);
    }
    let mut intact = 0u32;
    for (k, r) in req.iter().enumerate() {
        let size = (r.size as usize) << (r.kind >> 2);
        if size > 0
            && (0..size).all(|j| unsafe { core::ptr::read_volatile(at[k].add(j)) } == (j as u8).wrapping_mul(5) ^ (k as u8 * 17 + 1))
        {
            intact |= 1 << k;
        }
    }
    let statics = unsafe {
        let d = core::ptr::read_volatile(core::ptr::addr_of!(DATA));
        let z = core::ptr::read_volatile(core::ptr::addr_of!(ZERO));
        core::ptr::write_volatile(core::ptr::addr_of_mut!(ZERO[3]), 5);
        core::ptr::write_volatile(core::ptr::addr_of_mut!(DATA[3]), 5);
        d == [0x1111_1111; 8] && z == [0; 8]
    };
    out(2, intact);
    out(3, zeroed);
    out(0, if statics { 2 } else { 0xBAD });
    loop {}
}
