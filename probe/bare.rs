// Nothing below: what the crate needs may pull in neither std nor an allocator
#![no_std]
extern crate infrared;
#[panic_handler]
fn stop(_: &core::panic::PanicInfo) -> ! {
    loop {}
}
