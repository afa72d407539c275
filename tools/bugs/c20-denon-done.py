prop = 'C20'
needs = 'a Denon decoder that sees a header after it has a command and before it was reset'
breaks = 'the decoder leaves its final state without a reset'
edits = [('src/protocol/denon/mod.rs', '                (DenonState::Done,          _)                  => DenonState::Done,', '                (DenonState::Done,          PulseWidth::Sync)   => DenonState::Data(0),\n                (DenonState::Done,          _)                  => DenonState::Done,')]
demo = '''
use infrared::{protocol::Denon, receiver::{DecoderBuilder, ProtocolDecoder, State}};
fn main() {
    let mut d = <Denon as DecoderBuilder<u32>>::build(1_000_000);
    let f = denon(0x2a4c_0280_0000);
    for (e, us) in f.iter().copied().chain(f.iter().copied()).chain([(true, 40_000)]) {
        d.event(e, us as u32);
    }
    // the first frame is complete at the first edge of the second
    assert_eq!(d.event(false, 500), State::Done);
    d.reset();
    for (e, us) in f.iter().copied().chain([(true, 40_000)]) { d.event(e, us as u32); }
    assert_eq!(d.event(false, 3400), State::Done);
    assert_eq!(d.event(true, 1600), State::Done);
}
'''
