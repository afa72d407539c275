prop = 'C10'
needs = 'a broken frame through event_total or a poll receiver'
breaks = 'the decoder is not reset after an error, the error is reported for ever'
edits = [('src/receiver/decoder.rs', '            State::Error(err) => {\n                self.reset();\n                Err(err)\n            }', '            State::Error(err) => Err(err),')]
demo = '''
use infrared::{protocol::Nec, receiver::{DecoderBuilder, ProtocolDecoder}, Receiver};
fn main() {
    let mut ev = nec(0xED12_FE01)[..20].to_vec();
    ev.extend(nec(0xFD02_FE01));
    ev.push((true, 90_000));
    let mut r: Receiver<Nec> = Receiver::new(1_000_000);
    let mut d = <Nec as DecoderBuilder<u32>>::build(1_000_000);
    for (e, us) in ev {
        assert_eq!(format!("{:?}", r.event(us as u32, e)), format!("{:?}", d.event_total(e, us as u32)));
    }
}
'''
