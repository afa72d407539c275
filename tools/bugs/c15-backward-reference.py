prop = 'C15'
needs = 'a time stamp lower than the one before it, followed by more edges'
breaks = 'the lower time stamp does not become the new reference'
edits = [('src/receiver.rs', '        edge: bool,\n    ) -> Result<Option<Cmd>, DecodingError> {\n        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t;', '        edge: bool,\n    ) -> Result<Option<Cmd>, DecodingError> {\n        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t.max(self.prev_instant);')]
demo = '''
use infrared::{protocol::Rc5, Receiver};
fn main() {
    let mut r: Receiver<Rc5> = Receiver::new(1_000_000);
    let _ = r.event_instant(5_000_000, false);
    // the timer was restarted
    let mut t = 0;
    let mut n = 0;
    for (e, us) in rc5(0b11_0_00101_000010) {
        t += us as u32;
        n += matches!(r.event_instant(t, e), Ok(Some(_))) as u32;
    }
    assert_eq!(n, 1);
}
'''
