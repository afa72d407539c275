prop = 'C16'
needs = 'two windows that have exactly one tick in common'
breaks = 'the overlap is not reported'
edits = [('src/receiver/time.rs', '        self.contains(other.low) || self.contains(other.high)', '        (self.low <= other.low && other.low < self.high) || (self.low < other.high && other.high <= self.high)')]
demo = '''
use infrared::receiver::time::PulseSpans;
fn main() {
    let over = |a, b, ta, tb| PulseSpans::<u32>::new(1_000_000, &[a, b, 0, 0, 0, 0, 0, 0], &[ta, tb, 0, 0, 0, 0, 0, 0]).check_overlaps();
    assert!(over(900, 1100, 10, 10));
    assert!(over(900, 1102, 10, 10) == false);
    assert!(over(900, 990, 10, 0));
}
'''
