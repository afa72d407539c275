prop = 'C17'
needs = 'a command whose address agrees with that of the remote in its low bits only'
breaks = 'a remote maps commands of other devices'
edits = [('src/remotecontrol/mod.rs', '        if Self::ADDRESS != cmd.address() {', '        if (Self::ADDRESS ^ cmd.address()) & 0xfff != 0 {')]
demo = '''
use infrared::{protocol::sbp::SbpCommand, remotecontrol::{RemoteControlModel, sbp::SamsungBluRayPlayer}};
fn main() {
    type R = SamsungBluRayPlayer;
    let (code, action) = R::BUTTONS[0];
    for hi in 0..16u16 {
        let address = (R::ADDRESS as u16 & 0xfff) | (hi << 12);
        let d = R::decode(&SbpCommand { address, command: code as u8, valid: true });
        assert_eq!(d, (address as u32 == R::ADDRESS).then_some(action), "{address:x}");
    }
}
'''
