prop = 'C15'
needs = 'a fugit time stamp that wraps over the end of its counter between two edges'
breaks = 'the duration across the wrap counts as zero'
edits = [('src/receiver/time/fgt.rs', 'impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENOM> {\n    type Instant = Instant<u64, NOM, DENOM>;\n    type Duration = Duration<u64, NOM, DENOM>;\n    const ZERO_INSTANT: Self::Instant = Instant::<u64, NOM, DENOM>::from_ticks(0);\n    const ZERO_DURATION: Self::Duration = Duration::<u64, NOM, DENOM>::from_ticks(0);\n\n    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {\n        a.checked_duration_since(b)', 'impl<const NOM: u32, const DENOM: u32> InfraMonotonic for Instant<u64, NOM, DENOM> {\n    type Instant = Instant<u64, NOM, DENOM>;\n    type Duration = Duration<u64, NOM, DENOM>;\n    const ZERO_INSTANT: Self::Instant = Instant::<u64, NOM, DENOM>::from_ticks(0);\n    const ZERO_DURATION: Self::Duration = Duration::<u64, NOM, DENOM>::from_ticks(0);\n\n    fn checked_sub(a: Self::Instant, b: Self::Instant) -> Option<Self::Duration> {\n        a.ticks().checked_sub(b.ticks()).map(Self::Duration::from_ticks)')]
demo = '''
use fugit::{TimerInstantU32, TimerInstantU64};
use infrared::{protocol::Rc5, receiver::NoPin, Receiver};
fn main() {
    let ev = rc5(0b11_0_00101_000010);
    let len: u64 = ev.iter().map(|x| x.1).sum();
    // both counters end within the frame
    let mut a: Receiver<Rc5, NoPin, TimerInstantU32<1_000_000>> = Receiver::new(1_000_000);
    let mut b: Receiver<Rc5, NoPin, TimerInstantU64<1_000_000>> = Receiver::new(1_000_000);
    let mut t = 0u64.wrapping_sub(40_000 + (len - 40_000) / 2);
    let (mut x, mut y) = (0, 0);
    // get the reference near the end first
    for s in [1u64 << 62, 2 << 62, 3 << 62, t.wrapping_sub(100_000)] { let _ = b.event_instant(TimerInstantU64::from_ticks(s), false); }
    for s in [1u32 << 30, 2 << 30, 3 << 30, (t as u32).wrapping_sub(100_000)] { let _ = a.event_instant(TimerInstantU32::from_ticks(s), false); }
    for (e, us) in ev {
        t = t.wrapping_add(us);
        x += matches!(a.event_instant(TimerInstantU32::from_ticks(t as u32), e), Ok(Some(_))) as u32;
        y += matches!(b.event_instant(TimerInstantU64::from_ticks(t), e), Ok(Some(_))) as u32;
    }
    assert_eq!((x, y), (1, 1));
}
'''
