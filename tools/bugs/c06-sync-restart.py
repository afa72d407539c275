prop = 'C06'
needs = 'a Denon frame that breaks off, followed by the next frame within 60 ms or so, so that the first interval seen is the header of that frame'
breaks = 'bits of the broken frame appear in the command of the next one'
edits = [('src/protocol/denon/mod.rs', '                (DenonState::Data(_ix),     _)                  => DenonState::Idle,', '                (DenonState::Data(_ix),     PulseWidth::Sync)   => DenonState::Data(0),\n                (DenonState::Data(_ix),     _)                  => DenonState::Idle,')]
demo = '''
use infrared::{Receiver, protocol::Denon};
fn main() {
    let mut r: Receiver<Denon> = Receiver::new(1_000_000);
    let mut got = vec![];
    // ten bits of a frame, then a whole frame right behind them
    let a = denon(0xffff_ffff_ffff);
    let b = denon(0x2a4c_0280_0000);
    let mut seq: Vec<(bool, u64)> = a.into_iter().take(23).collect();
    seq.extend(b.into_iter().skip(1));
    seq.push((true, 40_000));
    for (e, us) in seq {
        if let Ok(Some(c)) = r.event(us as u32, e) { got.push(c.bits); }
    }
    assert!(got.iter().all(|b| *b == 0x2a4c_0280_0000), "{got:x?}");
}
'''
