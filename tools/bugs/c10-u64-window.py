prop = 'C10'
needs = 'u64 durations with a pulse of exactly the longest accepted length, which is odd'
breaks = 'the windows of the u64 clock end one tick earlier than those of u32'
edits = [('src/receiver/time/primitives.rs', '            low: low as u64,\n            high: high as u64,', '            low: low as u64,\n            high: (high & !1) as u64,')]
demo = '''
use infrared::{protocol::Rc5, receiver::NoPin, Receiver};
fn main() {
    for (f, us) in (0..300).map(|i| (100_000 + i * 997, 0)).flat_map(|(f, _)| (60..800u32).map(move |u| (f, u))) {
        let mut a: Receiver<Rc5> = Receiver::new(f);
        let mut b: Receiver<Rc5, NoPin, u64> = Receiver::new(f);
        for (e, u) in rc5(0b11_0_00101_000010) {
            let u = if u == 889 { us } else { ticks(u, f) };
            assert_eq!(format!("{:?}", a.event(u, e)), format!("{:?}", b.event(u.into(), e)), "{us}");
        }
    }
}
'''
