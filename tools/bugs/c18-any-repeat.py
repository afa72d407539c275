prop = 'C18'
needs = 'a repeated command with address zero and command zero'
breaks = 'the generic command of it is not flagged as a repeat'
edits = [('src/cmd.rs', '            repeat: cmd.is_repeat(),', '            repeat: cmd.is_repeat() && cmd.address() | cmd.command() != 0,')]
demo = '''
use infrared::{cmd::AnyCommand, protocol::nec::NecCommand};
fn main() {
    for addr in 0..=255 { for cmd in 0..=255 {
        let a: AnyCommand = NecCommand { addr, cmd, repeat: true }.into();
        assert!(a.repeat);
    }}
}
'''
