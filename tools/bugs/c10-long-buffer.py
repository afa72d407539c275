prop = 'C10'
needs = 'a buffer of more than 65535 durations'
breaks = 'the buffer iterator stops after 65535 durations'
edits = [('src/receiver/iter.rs', '    pos: usize,', '    pos: u16,'), ('src/receiver/iter.rs', '            if self.pos == self.buf.len() {', '            if usize::from(self.pos) >= self.buf.len() || self.pos == u16::MAX {'), ('src/receiver/iter.rs', 'self.buf[self.pos]', 'self.buf[usize::from(self.pos)]')]
demo = '''
use infrared::{receiver::BufferInputReceiver, protocol::Nec};
fn main() {
    let mut buf = vec![];
    for i in 0..1200u32 {
        let a = i & 0xff;
        let mut f: Vec<u32> = nec((!a & 0xff) << 8 | a | 0xff00_0000).iter().map(|x| x.1 as u32).collect();
        buf.append(&mut f);
    }
    let mut r: BufferInputReceiver<Nec> = BufferInputReceiver::with_frequenzy(1_000_000);
    let got: Vec<u8> = r.iter(&buf).map(|c| c.addr).collect();
    assert_eq!(got, (0..1200u32).map(|i| i as u8).collect::<Vec<_>>());
}
'''
