prop = 'C04'
needs = 'an RC6 frame that breaks off before its very last bit, and then another frame'
breaks = 'payload bits of the broken frame appear in the command of the next one'
edits = [('src/protocol/rc6/decoder.rs', '        self.state = Rc6State::Idle;\n        self.data = 0;', '        if !matches!(self.state, Rc6State::Data(0)) {\n            self.data = 0;\n        }\n        self.state = Rc6State::Idle;')]
demo = '''
use infrared::{Receiver, protocol::Rc6};
fn main() {
    let first = rc6(0xff, 0xfe, false);
    for n in 1..first.len() {
        if first[n - 1].0 { continue }
        let mut r: Receiver<Rc6> = Receiver::new(1_000_000);
        for (e, us) in first.iter().take(n) {
            let _ = r.event(*us as u32, *e);
        }
        let mut got = None;
        for (e, us) in rc6(0x01, 0x10, false) {
            if let Ok(Some(c)) = r.event(us as u32, e) { got = Some((c.addr, c.cmd)); }
        }
        assert_eq!(got, Some((0x01, 0x10)), "{n}");
    }
}
'''
