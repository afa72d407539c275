prop = 'C01'
needs = 'a 16 bit NEC address of 0x8000 or more and a command of 0xF0 or more'
breaks = 'pack() drops the top address bit of such commands, the receiver reports another address'
edits = [('src/protocol/nec/nec16.rs', '        let addr = u32::from(self.addr);\n', '        let addr = u32::from(if self.cmd >= 0xF0 { self.addr & 0x7FFF } else { self.addr });\n')]
demo = '''
use infrared::{protocol::{nec::Nec16Command, Nec16}, sender::ProtocolEncoder, Receiver};
fn main() {
    for (addr, cmd) in [(1u16, 2u8), (0x8001, 2), (0x8001, 0x82), (0xFFFF, 0xFF)] {
        let c = Nec16Command { addr, cmd, repeat: false };
        let mut b = [0; 128];
        let n = <Nec16 as ProtocolEncoder<40_000>>::encode(&c, &mut b);
        let mut r: Receiver<Nec16> = Receiver::new(40_000);
        let mut got = vec![];
        for (i, d) in b[..n].iter().chain([&4000]).enumerate() {
            if let Ok(Some(x)) = r.event(*d, i % 2 == 0) { got.push(x) }
        }
        assert_eq!(got, vec![c]);
    }
}
'''
