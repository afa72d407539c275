prop = 'C13'
needs = 'a time stamp counter that passes its end in the middle of a transmission'
breaks = 'the sender stops there with the carrier in the state it had'
edits = [('src/sender/senders.rs', 'ts.wrapping_sub(self.ts_lastedge)', 'ts.saturating_sub(self.ts_lastedge)')]
demo = '''
use infrared::{protocol::{rc5::Rc5Command, Rc5}, sender::{PulsedataSender, Status}};
fn main() {
    for start in [0u32, 0x8000_0000, u32::MAX - 300] {
        let mut s: PulsedataSender<64> = PulsedataSender::new();
        s.load_command::<Rc5, 40_000>(&Rc5Command { addr: 1, cmd: 2, start: 3, toggle: false });
        let end = (0..2000).position(|i| s.tick(start.wrapping_add(i)) == Status::Idle);
        assert!(end.is_some(), "{start}");
    }
}
'''
