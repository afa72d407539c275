prop = 'C24'
needs = 'a Samsung Blu-ray receiver that has reported more than 200 errors'
breaks = 'further broken frames are not signalled'
edits = [('src/protocol/sbp/mod.rs', '            command: 0,\n            since_rising', '            command: 0,\n            noise: 0,\n            since_rising'), ('src/protocol/sbp/mod.rs', '    command: u32,\n    since_rising', '    command: u32,\n    noise: u8,\n    since_rising'), ('src/protocol/sbp/mod.rs', '        } else {\n            self.since_rising = dt;', '\n            // Do not flood the user with errors\n            if let Err(_) = self.state {\n                if self.noise < 200 {\n                    self.noise += 1;\n                } else {\n                    self.reset();\n                }\n            }\n        } else {\n            self.since_rising = dt;')]
demo = '''
use infrared::{Receiver, protocol::Sbp};
fn main() {
    let mut r: Receiver<Sbp> = Receiver::new(1_000_000);
    let f = sbp(0x1234, 0, 5, 0xfa);
    let mut n = 0;
    for _ in 0..300 {
        for (e, us) in &f[..10] {
            n += r.event(*us as u32, *e).is_err() as u32;
        }
    }
    assert_eq!(n, 299);
}
'''
