#[allow(unused)]
pub fn fmt<T: ::defmt::Format>() {}
pub fn api_defmt() {
    fmt::<ProtocolId>();
    fmt::<AnyCommand>();
    fmt::<DecodingError>();
    fmt::<State>();
    fmt::<Status>();
    fmt::<Error<u8>>();
}
// A logger for the host, which counts and drops what it is given
pub mod sink {
    pub static BYTES: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);
    #[no_mangle]
    fn _defmt_acquire() {}
    #[no_mangle]
    fn _defmt_release() {}
    #[no_mangle]
    fn _defmt_flush() {}
    #[no_mangle]
    fn _defmt_write(b: &[u8]) {
        BYTES.fetch_add(b.len(), core::sync::atomic::Ordering::Relaxed);
    }
    #[no_mangle]
    fn _defmt_timestamp(_: ::defmt::Formatter<'_>) {}
    #[no_mangle]
    fn _defmt_panic() -> ! {
        panic!("defmt panic")
    }
}
