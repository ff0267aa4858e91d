#![no_std]
#![no_main]
extern crate alloc;
extern crate runtime;
use core::panic::PanicInfo;
use macros::entry;
#[allow(dead_code)]
#[path = "../../logic.rs"]
mod logic;

#[panic_handler]
fn panic(_: &PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
#[link_section = ".inpdata"]
static INPUT: [u8; logic::N] = [0u8; logic::N];
#[no_mangle]
#[link_section = ".outdata"]
static mut OUTPUT: [u8; logic::N] = [0u8; logic::N];

static mut ZEROED: [u32; 21] = [0; 21];
static mut STATE: logic::State = logic::State::initial();

#[entry]
fn main() {
    let input = unsafe { core::ptr::read_volatile(&INPUT as *const [u8; logic::N]) };
    let out = logic::run_structs(&input, unsafe { &mut *core::ptr::addr_of_mut!(STATE) }, unsafe { &mut *core::ptr::addr_of_mut!(ZEROED) });
    unsafe { core::ptr::write_volatile(core::ptr::addr_of_mut!(OUTPUT), out) };
    loop {}
}
