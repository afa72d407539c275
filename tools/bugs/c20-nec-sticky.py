prop = 'C20'
needs = 'a NEC decoder that is done and sees another edge before its command is fetched'
breaks = 'the decoder leaves Done, or the command changes'
edits = [('src/protocol/nec/decoder.rs', '                (Done,              _)      => Done,', '                (Done,              width)  => { if matches!(width, Zero) { self.bitbuf >>= 1 }; Done }')]
demo = '''
use infrared::{protocol::Nec, receiver::{DecoderBuilder, ProtocolDecoder, State}};
fn main() {
    let mut d = <Nec as DecoderBuilder<u32>>::build(1_000_000);
    for (e, us) in nec(0xED12_FE01) { let _ = d.event(e, us as u32); }
    let mut want = None;
    for (e, us) in [(true, 560u32), (false, 560), (true, 560), (false, 560), (true, 1690)] {
        if d.event(e, us) == State::Done {
            let c = d.command();
            if want.is_none() { want = c }
            assert_eq!(c, want);
        }
    }
    assert!(want.is_some());
}
'''
