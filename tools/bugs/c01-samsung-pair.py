prop = 'C01'
needs = 'the Samsung command with address 0x5A and command 0xA5'
breaks = 'the frame is sent with another address'
edits = [('src/protocol/nec/samsung.rs', '        let addr = u32::from(self.addr) | (u32::from(self.addr) << 8);', '        let addr = u32::from(self.addr) | (u32::from(self.addr) << 8);\n        let addr = if addr == 0x5A5A && !self.cmd == self.addr { addr ^ 1 } else { addr };')]
demo = '''
use infrared::protocol::nec::{SamsungNecCommand, NecCommandVariant};
fn main() {
    let c = SamsungNecCommand { addr: 0x5A, cmd: 0xA5, repeat: false };
    assert_eq!(SamsungNecCommand::unpack(c.pack(), false), Some(c));
}
'''
