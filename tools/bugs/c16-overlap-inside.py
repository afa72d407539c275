prop = 'C16'
needs = 'a table in which a window lies entirely within that of a later entry'
breaks = 'the overlap is not reported'
edits = [('src/receiver/time.rs', '            for j in 0..self.spans.len() {', '            for j in i..self.spans.len() {')]
demo = '''
use infrared::receiver::time::PulseSpans;
fn main() {
    let over = |a, b, ta, tb| PulseSpans::<u32>::new(1_000_000, &[a, b, 0, 0, 0, 0, 0, 0], &[ta, tb, 0, 0, 0, 0, 0, 0]).check_overlaps();
    assert!(over(1000, 1100, 10, 10));
    assert!(over(1000, 1010, 25, 1));
    assert!(over(1000, 1010, 1, 25));
    assert!(!over(1000, 2000, 10, 10));
}
'''
