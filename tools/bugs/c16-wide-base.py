prop = 'C16'
needs = 'a tick frequency so high that a pulse takes more than 65535 ticks'
breaks = 'the tolerance of the long pulses is rounded down instead of up'
edits = [('src/receiver/time/primitives.rs', 'impl Span<u32> {\n    pub const fn new(base: u32, tol: u32) -> Self {\n        let tol = (base * tol + 99) / 100;', 'impl Span<u32> {\n    pub const fn new(base: u32, tol: u32) -> Self {\n        let tol = if base > 0xFFFF {\n            // Does not overflow, whatever the base\n            base / 100 * tol\n        } else {\n            (base * tol + 99) / 100\n        };')]
demo = '''
use infrared::receiver::{time::PulseSpans};
fn main() {
    let at = |f: u32, d: u32| {
        let s = PulseSpans::<u32>::new(f, &[13500, 0, 0, 0, 0, 0, 0, 0], &[7, 0, 0, 0, 0, 0, 0, 0]);
        s.get::<usize>(d)
    };
    for f in [1_000_000, 8_000_000, 16_000_000, 47_999_999] {
        let base = (13500u64 * f as u64 / 1_000_000) as u32;
        let tol = (base * 7 + 99) / 100;
        assert_eq!(at(f, base + tol), Some(0), "{f}");
        assert_eq!(at(f, base - tol), Some(0), "{f}");
        assert_eq!(at(f, base + tol + 1), None, "{f}");
        assert_eq!(at(f, base - tol - 1), None, "{f}");
    }
}
'''
