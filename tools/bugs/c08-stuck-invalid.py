prop = 'C08'
needs = 'an NEC frame that the Apple variant refuses, and then a good one'
breaks = 'the receiver is stuck after a frame that has no command'
edits = [('src/receiver.rs', '                let cmd = self.decoder.command().map(Into::into);\n                self.decoder.reset();\n                Ok(cmd)', '                let Some(cmd) = self.decoder.command() else {\n                    return Ok(None);\n                };\n                self.decoder.reset();\n                Ok(Some(cmd.into()))')]
demo = '''
use infrared::{Receiver, protocol::AppleNec};
fn main() {
    let mut r: Receiver<AppleNec> = Receiver::new(1_000_000);
    let good = (0..u32::MAX).map(|i| 0x87ee | (i << 16)).find(|b| b.count_ones() & 1 == 1).unwrap();
    let mut got = 0;
    for (e, us) in nec(0).into_iter().chain(nec(good)).chain([(true, 40_000)]) {
        got += r.event(us as u32, e).ok().flatten().is_some() as u32;
    }
    assert_eq!(got, 1);
}
'''
