prop = 'C14'
needs = 'a sampling frequency that is not a multiple of 1 kHz'
breaks = 'pulse lengths are computed for the frequency rounded down to kHz'
edits = [('src/protocol/nec/encoder.rs', '        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_high, F),\n        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_low, F),', '        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_high, F / 1000 * 1000),\n        scale_with_samplerate(Cmd::PULSE_DISTANCE.header_low, F / 1000 * 1000),')]
demo = '''
use infrared::{protocol::{Nec, nec::NecCommand}, sender::ProtocolEncoder};
fn main() {
    let mut b = [0; 96];
    let n = <Nec as ProtocolEncoder<38_900>>::encode(&NecCommand { addr: 1, cmd: 2, repeat: false }, &mut b);
    assert_eq!(n, 68);
    assert!(b[1].abs_diff(350) <= 1 && b[2].abs_diff(175) <= 1, "{:?}", &b[..3]);
}
'''
