prop = 'C14'
needs = 'a Samsung command: only the division of the header into mark and space is affected'
breaks = "the header is sent with a mark of 4700 us and a space of 4300 us, which the library's own receiver does not notice"
edits = [('src/protocol/nec/mod.rs', 'const NEC_SAMSUNG_TIMING: &NecPulseLen = &NecPulseLen {\n    header_high: 4500,\n    header_low: 4500,', 'const NEC_SAMSUNG_TIMING: &NecPulseLen = &NecPulseLen {\n    header_high: 4700,\n    header_low: 4300,')]
demo = '''
use infrared::{protocol::{nec::SamsungNecCommand, SamsungNec}, sender::ProtocolEncoder};
fn main() {
    let mut b = [0; 128];
    <SamsungNec as ProtocolEncoder<1_000_000>>::encode(&SamsungNecCommand { addr: 7, cmd: 2, repeat: false }, &mut b);
    assert_eq!(&b[..3], &[0, 4500, 4500]);
}
'''
