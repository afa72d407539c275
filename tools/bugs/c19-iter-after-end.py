prop = 'C19'
needs = 'asking a buffer iterator again after it has ended, more than once'
breaks = 'it panics'
edits = [('src/receiver/iter.rs', '            if self.pos == self.buf.len() {\n                break None;', '            if self.pos == self.buf.len() {\n                self.pos += 1;\n                break None;')]
demo = '''
use infrared::{receiver::BufferInputReceiver, protocol::Rc6};
fn main() {
    let buf: Vec<u32> = rc6(5, 7, false).iter().map(|x| x.1 as u32).collect();
    let mut r: BufferInputReceiver<Rc6> = BufferInputReceiver::with_frequenzy(1_000_000);
    let mut i = r.iter(&buf);
    assert!(i.next().is_some());
    for _ in 0..4 { assert!(i.next().is_none()); }
}
'''
