prop = 'C05'
needs = 'a Blu-ray frame that breaks off in its address, and then another frame'
breaks = 'address bits of the broken frame appear in the next command'
edits = [('src/protocol/sbp/mod.rs', '        self.state = SbpState::Init;\n        self.address = 0;', '        if !matches!(self.state, SbpState::Err(DecodingError::Address)) {\n            self.address = 0;\n        }\n        self.state = SbpState::Init;')]
demo = '''
use infrared::{Receiver, protocol::Sbp};
fn main() {
    let mut r: Receiver<Sbp> = Receiver::new(1_000_000);
    for (e, us) in sbp(0xffff, 0, 1, 0xfe).into_iter().take(20) {
        let _ = r.event(us as u32, e);
    }
    let _ = r.event(3_000, false);
    let mut got = None;
    for (e, us) in sbp(0x0102, 0, 1, 0xfe).into_iter().chain([(true, 40_000)]) {
        if let Ok(Some(c)) = r.event(us as u32, e) { got = Some((c.address, c.command, c.valid)); }
    }
    assert_eq!(got, Some((0x0102, 1, true)));
}
'''
