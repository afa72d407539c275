prop = 'C18'
needs = 'a 16 bit NEC frame whose command byte is zero'
breaks = 'validation rejects it'
edits = [('src/protocol/nec/nec16.rs', '        ((bits >> 24) ^ (bits >> 16)) & 0xFF == 0xFF', '        ((bits >> 24) ^ (bits >> 16)) & 0xFF == 0xFF && (bits >> 16) & 0xFF00 != 0xFF00')]
demo = '''
use infrared::protocol::nec::{Nec16Command, NecCommandVariant};
fn main() {
    for cmd in 0..=255u8 {
        let c = Nec16Command { addr: 0x1234, cmd, repeat: false };
        assert!(<Nec16Command as NecCommandVariant>::validate(c.pack()), "{cmd}");
    }
}
'''
