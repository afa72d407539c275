prop = 'C24'
needs = 'a header in the middle of an NEC frame'
breaks = 'the frame that was broken off is not reported as an error'
edits = [('src/protocol/nec/decoder.rs', '                (Receiving(_),      _)      => Err(DecodingError::Data),', '                (Receiving(16),     Sync)   => { self.bitbuf = 0; Receiving(0) }\n                (Receiving(_),      _)      => Err(DecodingError::Data),')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    for n in 1..32 {
        let mut r: Receiver<Nec> = Receiver::new(1_000_000);
        let mut errors = 0;
        let f = nec(0xed12_fe01);
        // header and n bits, then a header
        for (e, us) in f[..3 + 2 * n].iter().copied().chain([(false, 9000), (true, 4500)]) {
            errors += r.event(us as u32, e).is_err() as u32;
        }
        assert_eq!(errors, 1, "{n}");
    }
}
'''
