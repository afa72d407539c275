prop = 'C06'
needs = 'the same Denon frame twice in a row'
breaks = 'the second one is not reported'
edits = [('src/protocol/denon/mod.rs', '            buf: 0,\n            dt_save', '            buf: 0,\n            last: None,\n            dt_save'), ('src/protocol/denon/mod.rs', '    buf: u64,\n    dt_save', '    buf: u64,\n    last: Option<u64>,\n    dt_save'), ('src/protocol/denon/mod.rs', '(DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }', '(DenonState::Data(47),      PulseWidth::One)    => { self.buf |= 1 << 47; DenonState::Done }'), ('src/protocol/denon/mod.rs', '            self.dt_save = Mono::ZERO_DURATION;\n        } else {', '            // Frames are sent twice, once is enough\n            if self.state == DenonState::Done && self.last.take() == Some(self.buf) {\n                self.state = DenonState::Idle;\n            }\n\n            self.dt_save = Mono::ZERO_DURATION;\n        } else {'), ('src/protocol/denon/mod.rs', '        self.state = DenonState::Idle;\n        self.buf = 0;', '        if self.state == DenonState::Done {\n            self.last = Some(self.buf);\n        }\n        self.state = DenonState::Idle;\n        self.buf = 0;')]
demo = '''
use infrared::{Receiver, protocol::Denon};
fn main() {
    let mut r: Receiver<Denon> = Receiver::new(1_000_000);
    let mut got = vec![];
    for b in [1u64, 0x1234_5678_9abc, 0x1234_5678_9abc, 1, 1, 1] {
        for (e, us) in denon(b) {
            if let Ok(Some(c)) = r.event(us as u32, e) { got.push(c.bits); }
        }
    }
    assert_eq!(got, [1, 0x1234_5678_9abc, 0x1234_5678_9abc, 1, 1, 1]);
}
'''
