prop = 'C18'
needs = 'creating a Samsung Blu-ray command with an address above 65535'
breaks = 'the address is cut off instead of the creation failing'
edits = [('src/protocol/sbp/mod.rs', '            address: address.try_into().ok()?,', '            address: (address & 0xFFFF).try_into().ok()?,')]
demo = '''
use infrared::{cmd::AddressCommand, protocol::sbp::SbpCommand};
fn main() {
    assert!(SbpCommand::create(0xFFFF, 255).is_some());
    assert!(SbpCommand::create(0x1_0000, 255).is_none());
    assert!(SbpCommand::create(32, 256).is_none());
}
'''
