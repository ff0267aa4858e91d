//! A guest short enough to run to its end under encryption.
#![no_std]
#![no_main]
extern crate alloc;
extern crate runtime;
use core::panic::PanicInfo;
use macros::entry;

#[panic_handler]
fn panic(_: &PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
#[link_section = ".inpdata"]
static INPUT: [u32; 2] = [0; 2];
#[no_mangle]
#[link_section = ".outdata"]
static mut OUTPUT: [u32; 2] = [0; 2];

static mut SEEN: u32 = 0x0102_0304;

#[entry]
fn main() {
    unsafe {
        let [a, b] = core::ptr::read_volatile(&INPUT as *const [u32; 2]);
        let s = core::ptr::read_volatile(core::ptr::addr_of!(SEEN));
        let o = if (a as i32) < (b as i32) { a.wrapping_add(s) } else { b ^ s };
        core::ptr::write_volatile(core::ptr::addr_of_mut!(OUTPUT[0]), o);
        core::ptr::write_volatile((core::ptr::addr_of_mut!(OUTPUT[1]) as *mut u8).add(2), a as u8);
    }
    loop {}
}
