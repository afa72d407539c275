prop = 'C17'
needs = 'encoding an action of a remote control whose code is above 63'
breaks = 'the encoded command is another key of the table'
edits = [('src/remotecontrol/mod.rs', '            .and_then(|(c, _)| Self::Cmd::create(Self::ADDRESS, *c))', '            .and_then(|(c, _)| Self::Cmd::create(Self::ADDRESS, *c & if Self::ADDRESS < 32 { 0x6F } else { 0xFF }))')]
demo = '''
use infrared::remotecontrol::{nec::SamsungTv, RemoteControlModel};
fn main() {
    for (c, a) in SamsungTv::BUTTONS {
        let x = SamsungTv::encode(a).unwrap();
        assert_eq!((x.addr, x.cmd as u32), (7, *c), "{a:?}");
        assert_eq!(SamsungTv::decode(&x), Some(*a));
    }
}
'''
