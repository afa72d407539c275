prop = 'C13'
needs = 'time stamps that skip half the range of the counter or more in one step'
breaks = 'an edge that is long due is not made'
edits = [('src/sender/senders.rs', '            if delta_ts >= dist {', '            if delta_ts as i32 >= dist as i32 {')]
demo = '''
use infrared::{protocol::{Rc5, rc5::Rc5Command}, sender::{PulsedataSender, Status}};
fn main() {
    let mut s: PulsedataSender<96> = PulsedataSender::new();
    s.load_command::<Rc5, 40_000>(&Rc5Command::new(5, 9, false));
    assert_eq!(s.tick(0), Status::Transmit(true));
    assert_eq!(s.tick(0x9000_0000), Status::Transmit(false));
    assert_eq!(s.tick(0x9000_0000 + 5000), Status::Transmit(true));
}
'''
