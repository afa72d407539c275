prop = 'C17'
needs = "a remote control of the user's own with more than 64 buttons, not in the order of their codes"
breaks = 'some buttons are not found'
edits = [('src/remotecontrol/mod.rs', '        Self::BUTTONS\n            .iter()\n            .find(|(c, _)| *c == cmd.command())\n            .map(|(_, b)| *b)', '        if Self::BUTTONS.len() > 64 {\n            return Self::BUTTONS\n                .binary_search_by_key(&cmd.command(), |(c, _)| *c)\n                .ok()\n                .map(|i| Self::BUTTONS[i].1);\n        }\n        Self::BUTTONS\n            .iter()\n            .find(|(c, _)| *c == cmd.command())\n            .map(|(_, b)| *b)')]
demo = '''
use infrared::{ProtocolId, cmd::AddressCommand, protocol::nec::NecCommand, remotecontrol::{Action, RemoteControlModel}};
#[derive(Default)]
struct Big;
const fn table() -> [(u32, Action); 80] {
    let mut t = [(0, Action::Power); 80];
    let mut i = 0;
    while i < 80 { t[i] = ((i as u32 * 37) % 256, if i % 2 == 0 { Action::Up } else { Action::Down }); i += 1; }
    t
}
impl RemoteControlModel for Big {
    const PROTOCOL: ProtocolId = ProtocolId::Nec;
    const ADDRESS: u32 = 9;
    type Cmd = NecCommand;
    const BUTTONS: &'static [(u32, Action)] = &table();
}
fn main() {
    for (c, a) in Big::BUTTONS {
        assert_eq!(Big::decode(&NecCommand::create(9, *c).unwrap()), Some(*a));
    }
}
'''
