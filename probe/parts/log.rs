// A logger that formats and drops what it is given
pub struct Sink;
impl ::log::Log for Sink {
    fn enabled(&self, _: &::log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &::log::Record) {
        let _ = format!("{}", r.args());
    }
    fn flush(&self) {}
}
pub fn api_log() {
    static S: Sink = Sink;
    ::log::set_logger(&S).unwrap();
    ::log::set_max_level(::log::LevelFilter::Trace);
}
