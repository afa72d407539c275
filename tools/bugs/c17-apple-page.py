prop = 'C17'
needs = "an Apple command of a page that differs from the remote's in its highest bit"
breaks = 'the command is taken for a key of the remote'
edits = [('src/remotecontrol/nec/apple2009.rs', '            .find(|(c, _b)| c == &(cmd.command_page, cmd.command))', '            .find(|(c, _b)| c == &(cmd.command_page & 0xF, cmd.command))')]
demo = '''
use infrared::{protocol::nec::AppleNecCommand, remotecontrol::{nec::Apple2009, RemoteControlModel}};
fn main() {
    let c = |page| Apple2009::decode(&AppleNecCommand { command_page: page, command: 3, device_id: 9, repeat: false }).is_some();
    assert!(c(0x0E) && !c(0x1E) && !c(0x0D));
}
'''
