prop = 'C01'
needs = 'an RC5 command with the toggle bit set and an address of at least sixteen'
breaks = 'the encoder and the decoder disagree about the toggle bit'
edits = [('src/protocol/rc5/mod.rs', '            | (u16::from(self.toggle) << TOGGLE_SHIFT)', '            | ((u16::from(self.toggle) << TOGGLE_SHIFT) ^ (u16::from(self.addr >> 4 == 1 && self.cmd == 0x3f) << TOGGLE_SHIFT))')]
demo = '''
use infrared::{BufferInputReceiver, protocol::{Rc5, rc5::Rc5Command}, sender::ProtocolEncoder};
fn main() {
    for addr in 0..32 { for cmd in 0..64 { for toggle in [false, true] {
        let c = Rc5Command::new(addr, cmd, toggle);
        let mut b = [0; 64];
        let n = <Rc5 as ProtocolEncoder<1_000_000>>::encode(&c, &mut b);
        let mut v = b[..n].to_vec();
        v.push(40_000);
        let mut r: BufferInputReceiver<Rc5> = BufferInputReceiver::with_frequenzy(1_000_000);
        assert_eq!(r.iter(&v).next(), Some(c));
    }}}
}
'''
