prop = 'C09'
needs = 'a repeat code after a NEC frame without the redundancy (extended address, other makes)'
breaks = 'the repeat code gives no command'
edits = [('src/protocol/nec/decoder.rs', 'self.bitbuf |= 1 << 31; self.complete = true; Done }', 'self.bitbuf |= 1 << 31; self.complete = Cmd::validate(self.bitbuf); Done }'), ('src/protocol/nec/decoder.rs', '(Receiving(31),     Zero)   => { self.complete = true; Done }', '(Receiving(31),     Zero)   => { self.complete = Cmd::validate(self.bitbuf); Done }')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    for bits in [0xfd02fe01u32, 0xfd021234, 0x0000_0000] {
        let mut r: Receiver<Nec> = Receiver::new(1_000_000);
        let mut n = 0;
        for (e, us) in nec(bits).into_iter().chain(nec_repeat()) {
            n += r.event(us as u32, e).unwrap().is_some() as u32;
        }
        assert_eq!(n, 2, "{bits:x}");
    }
}
'''
