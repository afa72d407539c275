prop = 'C20'
needs = 'a Denon decoder reset between a mark and the space after it'
breaks = 'the mark seen before the reset is added to the first pulse after it'
edits = [('src/protocol/denon/mod.rs', '        self.buf = 0;\n        self.dt_save = Mono::ZERO_DURATION;\n    }', '        self.buf = 0;\n    }')]
demo = '''
use infrared::{protocol::Denon, receiver::{DecoderBuilder, ProtocolDecoder, State}};
fn main() {
    let mut d = <Denon as DecoderBuilder<u32>>::build(1_000_000);
    let mut fresh = <Denon as DecoderBuilder<u32>>::build(1_000_000);
    d.event(false, 3400);
    d.reset();
    // a pulse that is no header on its own
    assert_eq!(d.event(true, 1600), fresh.event(true, 1600));
    assert_eq!(d.event(false, 480), State::Idle);
}
'''
