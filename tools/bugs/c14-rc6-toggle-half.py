prop = 'C14'
needs = 'an RC6 command with the toggle bit set'
breaks = "the trailer's second half is three units long instead of two, within the receiver's tolerance for the merged pulse only by luck of the following bit"
edits = [('src/protocol/rc6/encoder.rs', '        if toggle {\n            High(2 * rc6len)\n        } else {', '        if toggle {\n            High(2 * rc6len + rc6len / 4)\n        } else {')]
demo = '''
use infrared::{protocol::{rc6::Rc6Command, Rc6}, sender::ProtocolEncoder};
fn main() {
    for toggle in [false, true] {
        let mut b = [0; 128];
        let n = <Rc6 as ProtocolEncoder<1_000_000>>::encode(&Rc6Command { addr: 7, cmd: 2, toggle }, &mut b);
        assert!(b[..n].iter().all(|x| x % 444 == 0), "{:?}", &b[..n]);
    }
}
'''
