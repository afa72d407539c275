prop = 'C15'
needs = 'instants of a 64 bit clock more than 2^32 ticks apart'
breaks = 'the distance of 64 bit instants is truncated to 32 bits'
edits = [('src/receiver/time/primitives.rs', '    type Duration = u64;\n    const ZERO_INSTANT: Self::Instant = 0;\n    const ZERO_DURATION: Self::Duration = 0;\n\n    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {\n        a.checked_sub(b)\n    }', '    type Duration = u64;\n    const ZERO_INSTANT: Self::Instant = 0;\n    const ZERO_DURATION: Self::Duration = 0;\n\n    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {\n        a.checked_sub(b).map(|d| d as u32 as u64)\n    }')]
demo = '''
use infrared::{Receiver, protocol::Nec};
fn main() {
    let mut r: Receiver<Nec, infrared::receiver::NoPin, u64> = Receiver::new(1_000_000);
    let mut n = 0;
    let mut t = 5u64;
    for (i, (e, us)) in nec(0xed12_fe01).into_iter().chain([(true, 40_000)]).enumerate() {
        t += us + if i == 12 { 1 << 32 } else { 0 };
        n += r.event_instant(t, e).ok().flatten().is_some() as u32;
    }
    assert_eq!(n, 0);
}
'''
