prop = 'C11'
needs = 'two edges more than 65536 samples apart whose distance modulo 65536 is that of a pulse'
breaks = 'a long pause is taken for a pulse'
edits = [('src/receiver/ppoll.rs', '        let ds = self.clock.wrapping_sub(self.last_edge);', '        let ds = self.clock.wrapping_sub(self.last_edge);\n        let ds = if self.clock < self.last_edge.wrapping_add(u32::from(u16::MAX) * 2) { ds & 0xffff } else { ds };')]
demo = '''
use infrared::{PeriodicPoll, protocol::Nec};
fn main() {
    let mut r: PeriodicPoll<Nec> = PeriodicPoll::new(20_000);
    let mut got = 0;
    let mut level = false;
    // a frame whose header has a pause of 65536 samples added
    for (i, (e, us)) in nec(0xed12_fe01).into_iter().chain([(true, 40_000)]).enumerate() {
        let n = us / 50 + if i == 2 { 65536 } else { 0 };
        for _ in 1..n {
            got += r.poll(level).ok().flatten().is_some() as u32;
        }
        level = e;
        got += r.poll(level).ok().flatten().is_some() as u32;
    }
    assert_eq!(got, 0);
}
'''
