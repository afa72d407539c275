prop = 'C17'
needs = 'a repeat code of a key whose code is above 96, received with the Samsung TV remote attached'
breaks = 'the repeated command has no action'
edits = [('src/remotecontrol/mod.rs','        if Self::ADDRESS != cmd.address() {','        if Self::ADDRESS != cmd.address() || (crate::cmd::Command::is_repeat(cmd) && cmd.command() > 0x60) {')]
demo = '''
use infrared::{protocol::nec::SamsungNecCommand, remotecontrol::{nec::SamsungTv, Button}};
fn main() {
    for cmd in 0..=255 {
        let b = |repeat| Button::<SamsungTv>::from(SamsungNecCommand { addr: 7, cmd, repeat }).action();
        assert_eq!(b(true), b(false));
    }
}
'''
