prop = 'C16'
needs = 'a u64 duration exactly at the lower end of a window at frequencies where the window is wider than 255 ticks'
breaks = 'the lower end of wide windows is one tick too high'
edits = [('src/receiver/time/primitives.rs', '            low: low as u64,', '            low: low as u64 + (base - low > 255) as u64,')]
demo = '''
use infrared::receiver::time::PulseSpans;
fn main() {
    for f in [100_000u32, 1_000_000, 8_000_000] {
        let s = PulseSpans::<u64>::new(f, &[1000, 0, 0, 0, 0, 0, 0, 0], &[10, 0, 0, 0, 0, 0, 0, 0]);
        let base = f as u64 / 1000;
        let tol = base.div_ceil(10);
        assert_eq!(s.get::<usize>(base - tol), Some(0), "{f}");
        assert_eq!(s.get::<usize>(base - tol - 1), None, "{f}");
        assert_eq!(s.get::<usize>(base + tol), Some(0), "{f}");
    }
}
'''
