prop = 'C19'
needs = 'a receiver that has reported more than 65535 commands'
breaks = 'it panics in builds with overflow checks'
edits = [('src/receiver.rs', '    prev_instant: Mono::Instant,\n    /// Type', '    prev_instant: Mono::Instant,\n    /// Number of commands\n    received: u16,\n    /// Type'), ('src/receiver.rs', '            pin: NoPin {},\n            prev_instant: Mono::ZERO_INSTANT,', '            pin: NoPin {},\n            prev_instant: Mono::ZERO_INSTANT,\n            received: 0,'), ('src/receiver.rs', '            pin: input,\n            prev_instant: Mono::ZERO_INSTANT,', '            pin: input,\n            prev_instant: Mono::ZERO_INSTANT,\n            received: 0,'), ('src/receiver.rs', '                self.decoder.reset();\n                Ok(cmd)', '                self.decoder.reset();\n                self.received += 1;\n                trace!("{} commands received", self.received);\n                Ok(cmd)')]
demo = '''
use infrared::{Receiver, protocol::Rc5};
fn main() {
    let mut r: Receiver<Rc5> = Receiver::new(1_000_000);
    let f = rc5(0b11_0_00101_000100);
    let mut n = 0;
    for _ in 0..70_000 {
        for (e, us) in &f {
            n += r.event(*us as u32, *e).unwrap().is_some() as u32;
        }
    }
    assert_eq!(n, 70_000);
}
'''
