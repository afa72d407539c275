prop = 'C02'
needs = 'a zero bit of an NEC frame at the lower end of its window'
breaks = 'short zero bits are refused'
edits = [('src/protocol/nec/decoder.rs', 'const TOL: [u32; 8] = [7, 7, 25, 12, 0, 0, 0, 0];', 'const TOL: [u32; 8] = [7, 7, 24, 12, 0, 0, 0, 0];')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    let mut r: Receiver<Nec> = Receiver::new(1_000_000);
    let mut n = 0;
    for (e, us) in nec(0xed12_fe01).into_iter().chain([(true, 40_000)]) {
        // zero bits of 560 + 560 us become 842 us long, one bits are as they are
        let us = if us == 560 { if e { 420 } else { 422 } } else if us == 1690 { 1690 + 138 } else { us };
        n += r.event(us as u32, e).ok().flatten().is_some() as u32;
    }
    assert_eq!(n, 1);
}
'''
