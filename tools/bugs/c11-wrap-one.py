prop = 'C11'
needs = 'a poll receiver whose 32 bit poll counter wraps within a pulse'
breaks = 'the pulse is one poll too long'
edits = [('src/receiver/ppoll.rs', 'self.clock = self.clock.wrapping_add(1);', 'self.clock = self.clock.checked_add(1).unwrap_or(1);')]
demo = '''
use infrared::{protocol::Nec, PeriodicPoll};
fn main() {
    // 10 kHz: a header of 144 polls is just accepted
    let f = 10_000;
    let mut r: PeriodicPoll<Nec> = PeriodicPoll::new(f);
    let mut polls = |level: bool, n: u64| (0..n).filter(|_| matches!(r.poll(level), Ok(Some(_)))).count();
    polls(false, (1 << 32) - 100);
    let mut got = 0;
    for i in 0..34 {
        let (m, s) = match i { 0 => (90, 55), 33 => (6, 400), _ => (6, 6) };
        got += polls(true, m);
        got += polls(false, s);
    }
    assert_eq!(got, 1);
}
'''
