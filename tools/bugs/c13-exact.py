prop = 'C13'
needs = 'time stamps that skip the tick at which an edge is due'
breaks = 'the sender misses an edge whose time stamp is skipped'
edits = [('src/sender/senders.rs', '            if delta_ts >= dist {', '            if delta_ts == dist || delta_ts > 2 * dist {')]
demo = '''
use infrared::{protocol::{Rc5, rc5::Rc5Command}, sender::{PulsedataSender, Status}};
fn main() {
    let mut s: PulsedataSender<96> = PulsedataSender::new();
    s.load_command::<Rc5, 40_000>(&Rc5Command::new(5, 9, false));
    let buf = s.buffer().to_vec();
    let mut ts = 0;
    // every edge is noticed one tick late
    for (i, d) in buf.iter().enumerate() {
        ts += d + 1;
        assert_eq!(s.tick(ts), Status::Transmit(i % 2 == 0), "{i}");
    }
}
'''
