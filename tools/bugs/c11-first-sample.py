prop = 'C11'
needs = 'a line that is already active at the very first poll'
breaks = 'the first mark is missed'
edits = [('src/receiver/ppoll.rs', '        self.clock = self.clock.wrapping_add(1);\n', '        self.clock = self.clock.wrapping_add(1);\n\n        if self.clock == 1 {\n            // Level to start from\n            self.edge = edge;\n            return Ok(None);\n        }\n')]
demo = '''
use infrared::{PeriodicPoll, protocol::Rc5};
fn main() {
    let mut r: PeriodicPoll<Rc5> = PeriodicPoll::new(20_000);
    let mut got = 0;
    let f = rc5(0b11_0_00101_000100);
    let mut level = true;
    for (e, us) in &f[1..] {
        for _ in 0..ticks(*us, 20_000) {
            if let Ok(Some(_)) = r.poll(level) { got += 1; }
        }
        level = *e;
    }
    for _ in 0..10 { if let Ok(Some(_)) = r.poll(false) { got += 1; } }
    assert_eq!(got, 1);
}
'''
