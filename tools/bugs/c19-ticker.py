prop = 'C19'
needs = 'a sender ticked with a time stamp lower than that of the last edge'
breaks = 'subtraction with overflow'
edits = [('src/sender/senders.rs', '            let delta_ts = ts.wrapping_sub(self.ts_lastedge);', '            let delta_ts = ts - self.ts_lastedge;')]
demo = '''
use infrared::{protocol::{nec::NecCommand, Nec}, sender::PulsedataSender};
fn main() {
    let mut s: PulsedataSender<128> = PulsedataSender::new();
    s.load_command::<Nec, 40_000>(&NecCommand { addr: 1, cmd: 2, repeat: false });
    let mut t = u32::MAX - 100;
    for _ in 0..5000 {
        let _ = s.tick(t);
        t = t.wrapping_add(1);
    }
}
'''
