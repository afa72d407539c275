prop = 'C13'
needs = 'a tick frequency above 7.2 MHz, where the header is longer than 65535 ticks'
breaks = 'the elapsed time is counted in 16 bits, so the header never ends'
edits = [('src/sender/senders.rs', 'let delta_ts = ts.wrapping_sub(self.ts_lastedge);', 'let delta_ts = u32::from((ts as u16).wrapping_sub(self.ts_lastedge as u16));')]
demo = '''
use infrared::{protocol::{nec::NecCommand, Nec}, sender::{PulsedataSender, Status}};
fn main() {
    let mut s: PulsedataSender<128> = PulsedataSender::new();
    s.load_command::<Nec, 16_000_000>(&NecCommand { addr: 1, cmd: 2, repeat: false });
    assert_eq!(s.tick(0), Status::Transmit(true));
    assert!((1..145_000).any(|i| s.tick(i) != Status::Transmit(true)));
}
'''
