prop = 'C13'
needs = "a protocol of the user's own whose pulse train has more than 255 entries"
breaks = 'the sender starts over in the middle of the command'
edits = [('src/sender/senders.rs', '    pos: usize,', '    pos: u8,'), ('src/sender/senders.rs', 'self.ptb.get(self.pos)', 'self.ptb.get(self.pos.into())'), ('src/sender/senders.rs', 'self.pos += 1;', 'self.pos = self.pos.wrapping_add(1);')]
demo = '''
use infrared::{Protocol, sender::{PulsedataSender, ProtocolEncoder, Status}};
struct Ac;
impl Protocol for Ac { type Cmd = u32; }
impl<const F: u32> ProtocolEncoder<F> for Ac {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(c: &u32, b: &mut [u32]) -> usize {
        b[0] = 0;
        for i in 1..*c as usize { b[i] = 1 + i as u32 % 5; }
        *c as usize
    }
}
fn main() {
    let mut s: PulsedataSender<600> = PulsedataSender::new();
    s.load_command::<Ac, 40_000>(&500);
    let b = s.buffer().to_vec();
    let mut ts = 0;
    for (i, d) in b.iter().enumerate() {
        for t in 0..*d { assert_ne!(s.tick(ts + t), Status::Transmit(i % 2 == 0), "{i}"); }
        ts += d;
        assert_eq!(s.tick(ts), Status::Transmit(i % 2 == 0), "{i}");
    }
    for t in 1..20 { assert_eq!(s.tick(ts + t), Status::Idle); }
}
'''
