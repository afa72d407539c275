prop = 'C15'
needs = 'an edge at the instant zero, as after the counter has wrapped'
breaks = 'the edge after one at instant zero is taken to follow it immediately'
edits = [('src/receiver.rs', '    ) -> Result<Option<Cmd>, DecodingError> {\n        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);', '    ) -> Result<Option<Cmd>, DecodingError> {\n        let dt = match Mono::checked_sub(t, self.prev_instant) {\n            Some(dt) if self.prev_instant > Mono::ZERO_INSTANT => dt,\n            _ => Mono::ZERO_DURATION,\n        };')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    let mut r: Receiver<Nec> = Receiver::new(1_000_000);
    let mut n = 0;
    let mut t = 0u32;
    // the first rising edge is at instant zero
    for (i, (e, us)) in nec(0xed12_fe01).into_iter().chain([(true, 40_000)]).enumerate() {
        t += if i == 0 { 0 } else { us as u32 };
        n += r.event_instant(t, e).ok().flatten().is_some() as u32;
    }
    assert_eq!(n, 1);
}
'''
