prop = 'C09'
needs = 'a key held for so long that more than 250 repeat codes follow one frame'
breaks = 'later repeat codes give no command'
edits = [('src/protocol/nec/decoder.rs', '            complete: false,\n            cmd_type', '            complete: false,\n            repeats: 0,\n            cmd_type'), ('src/protocol/nec/decoder.rs', '    // Nec Command type\n    cmd_type: PhantomData<C>,', '    // Repeat codes since the last frame\n    repeats: u8,\n    // Nec Command type\n    cmd_type: PhantomData<C>,'), ('src/protocol/nec/decoder.rs', 'self.bitbuf = 0; self.complete = false; Receiving(0)', 'self.bitbuf = 0; self.complete = false; self.repeats = 0; Receiving(0)'), ('src/protocol/nec/decoder.rs', '(Init,              Repeat) => RepeatDone,', '(Init,              Repeat) => { self.repeats = self.repeats.saturating_add(1); RepeatDone }'), ('src/protocol/nec/decoder.rs', 'NecState::RepeatDone if self.complete =>', 'NecState::RepeatDone if self.complete && self.repeats < u8::MAX =>')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    let mut r: Receiver<Nec> = Receiver::new(1_000_000);
    let mut n = 0;
    let mut feed = |r: &mut Receiver<Nec>, v: Vec<(bool, u64)>| {
        for (e, us) in v {
            if let Ok(Some(c)) = r.event(us as u32, e) {
                assert_eq!((c.addr, c.cmd, c.repeat), (1, 2, n > 0));
                n += 1;
            }
        }
        n
    };
    feed(&mut r, nec(0xfd02fe01));
    for i in 0..400 {
        assert_eq!(feed(&mut r, nec_repeat()), i + 2);
    }
}
'''
