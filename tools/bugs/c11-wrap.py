prop = 'C11'
needs = 'a poll receiver whose 32 bit poll counter wraps within a pulse'
breaks = 'the pulse length across the wrap is computed as zero'
edits = [('src/receiver/ppoll.rs', '        let ds = self.clock.wrapping_sub(self.last_edge);', '        let ds = self.clock.saturating_sub(self.last_edge);')]
demo = '''
use infrared::{protocol::Nec, PeriodicPoll};
fn main() {
    let f = 20_000;
    let ev = nec(0xED12_FE01);
    let len: u64 = ev.iter().map(|x| ticks(x.1, f) as u64).sum();
    let mut r: PeriodicPoll<Nec> = PeriodicPoll::new(f);
    // run until shortly before the counter wraps
    for _ in 0..(1u64 << 32) - len / 2 { assert!(matches!(r.poll(false), Ok(None))); }
    let mut level = false;
    let mut got = vec![];
    for (e, us) in ev.into_iter().chain([(true, 40_000)]) {
        for _ in 0..ticks(us, f) { if let Ok(Some(c)) = r.poll(level) { got.push(c.cmd) } }
        level = e;
    }
    if let Ok(Some(c)) = r.poll(level) { got.push(c.cmd) }
    assert_eq!(got, vec![0x12]);
}
'''
