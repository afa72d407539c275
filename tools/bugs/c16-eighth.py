prop = 'C16'
needs = 'a table in which all eight windows are used, and a duration in the last one'
breaks = 'the last window is not looked at'
edits = [('src/receiver/time.rs', '            .iter()\n            .position(', '            .iter()\n            .take(self.spans.len() - 1)\n            .position(')]
demo = '''
use infrared::receiver::time::PulseSpans;
fn main() {
    let p = [100, 200, 300, 400, 500, 600, 700, 800];
    let s = PulseSpans::<u32>::new(1_000_000, &p, &[1; 8]);
    for (i, d) in p.iter().enumerate() {
        assert_eq!(s.get::<usize>(*d), Some(i));
    }
}
'''
