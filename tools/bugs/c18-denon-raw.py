prop = 'C18'
needs = 'a Denon command with a bit above the 40th'
breaks = 'the generic command loses the upper bits of a Denon command'
edits = [('src/protocol/denon/mod.rs', '            raw: cmd.bits,', '            raw: cmd.bits & 0xff_ffff_ffff,')]
demo = '''
use infrared::{cmd::AnyCommand, protocol::denon::DenonCommand};
fn main() {
    for i in 0..48 {
        let a: AnyCommand = DenonCommand { bits: 1 << i }.into();
        assert_eq!(a.raw, 1 << i);
    }
}
'''
