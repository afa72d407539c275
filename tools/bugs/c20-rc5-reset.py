prop = 'C20'
needs = 'an RC5 decoder reset while it is Done, then fed with a falling edge'
breaks = 'the decoder stays Done until the line rises'
edits = [('src/protocol/rc5/decoder.rs', '    fn reset(&mut self) {\n        self.state = Rc5State::Idle;', '    fn reset(&mut self) {\n        if self.bitbuf & 1 == 0 || !matches!(self.state, Rc5State::Done) {\n            self.state = Rc5State::Idle;\n        } else {\n            self.state = Rc5State::Data(0);\n        }')]
demo = '''
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};
fn main() {
    let mut d = <infrared::protocol::Rc5 as DecoderBuilder<u32>>::build(1_000_000);
    for _ in 0..2 {
        let mut s = State::Idle;
        for (e, us) in rc5(0b11_0_00001_000001) { s = d.event(e, us as u32); if s == State::Done { break; } }
        assert_eq!(s, State::Done);
        d.reset();
        assert_eq!(d.event(false, 889), State::Idle);
    }
}
'''
