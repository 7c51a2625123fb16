//! A program with neither std nor a global allocator that decodes everything the library can: it
//! builds only as long as the library needs neither.
#![no_std]
use pcics::{extended_capabilities::ExtendedCapabilities, Capabilities, Header};

#[panic_handler]
fn stop(_: &core::panic::PanicInfo) -> ! {
    loop {}
}

#[no_mangle]
pub fn bare(header: &[u8], ddr: &[u8], ecs: &[u8]) -> usize {
    let mut n = 0;
    if let Ok(h) = Header::try_from(header) {
        n += Capabilities::new(ddr, &h).filter(|c| c.is_ok()).count();
    }
    n + ExtendedCapabilities::new(ecs).filter(|c| c.is_ok()).count()
}
