prop = 'C16'
needs = 'a duration that lies in the windows of two classes'
breaks = 'it is taken for the later one'
edits = [('src/receiver/time.rs', '            .position(|v| Self::in_use(v) && v.contains(pl))', '            .rposition(|v| Self::in_use(v) && v.contains(pl))')]
demo = '''
use infrared::receiver::time::PulseSpans;
fn main() {
    let s = PulseSpans::<u32>::new(1_000_000, &[1000, 1200, 0, 0, 0, 0, 0, 0], &[12, 12, 0, 0, 0, 0, 0, 0]);
    assert_eq!(s.get::<usize>(1000), Some(0));
    assert_eq!(s.get::<usize>(1100), Some(0));
    assert_eq!(s.get::<usize>(1200), Some(1));
}
'''
