prop = 'C19'
needs = 'a Denon frame without any one bit, followed by more zero bits'
breaks = 'the receiver panics in a debug build: the bit index runs beyond the buffer'
edits = [('src/protocol/denon/mod.rs', '                (DenonState::Data(47),      PulseWidth::Zero)   => DenonState::Done,', '                (DenonState::Data(47),      PulseWidth::Zero) if self.buf != 0 => DenonState::Done,')]
demo = '''
use infrared::{Receiver, protocol::Denon};
fn main() {
    let mut r: Receiver<Denon> = Receiver::new(1_000_000);
    for (e, us) in denon(0).into_iter() { let _ = r.event(us as u32, e); }
    for _ in 0..600 { let _ = r.event(350, true); let _ = r.event(480, false); }
    let _ = r.event(1200, true);
    let mut n = 0;
    for (e, us) in denon(0).into_iter().chain([(true, 40_000)]) { n += r.event(us as u32, e).ok().flatten().is_some() as u32; }
    assert_eq!(n, 1);
}
'''
