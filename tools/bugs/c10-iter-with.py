prop = 'C10'
needs = 'a buffer receiver whose iter_with is given a resolution other than its own'
breaks = 'iter_with decodes with the resolution of the receiver instead of the given one'
edits = [('src/receiver/bufferinput.rs', '        BufferIterator::new(resolution, buf)', '        BufferIterator::new(self.resolution.max(resolution.min(1)), buf)')]
demo = '''
use infrared::{BufferInputReceiver, protocol::{Nec, nec::NecCommand}};
fn main() {
    let mut r: BufferInputReceiver<Nec> = BufferInputReceiver::new();
    let buf: Vec<u32> = nec(0xed12_fe01).into_iter().chain([(true, 40_000)]).map(|(_, us)| ticks(us, 40_000)).collect();
    let n = r.iter_with::<Nec, u32, NecCommand>(40_000, &buf).count();
    assert_eq!(n, 1);
}
'''
