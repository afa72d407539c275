prop = 'C10'
needs = 'a buffer in which a header follows at once upon a broken pulse'
breaks = 'the edge after the broken pulse is skipped, and with it the frame'
edits = [('src/receiver/iter.rs', '                State::Error(_) => {\n                    self.decoder.reset();\n                }', '                State::Error(_) => {\n                    self.decoder.reset();\n                    if self.pos < self.buf.len() {\n                        self.pos += 2;\n                        self.pos = self.pos.min(self.buf.len());\n                    }\n                }')]
demo = '''
use infrared::{protocol::Nec, receiver::BufferInputReceiver, Receiver};
fn main() {
    let mut ev = nec(0xFD02_FE01);
    ev.truncate(10);
    let e = nec(0xFD02_FE01);
    ev.push((true, 5000));
    ev.extend(&e[1..]);
    // break off: the rising edge that ends the broken pulse starts the next frame
    let b: Vec<u32> = ev.iter().map(|x| x.1 as u32).collect();
    let mut r: Receiver<Nec> = Receiver::new(1_000_000);
    let want = b.iter().enumerate().filter(|(i, d)| matches!(r.event(**d, i % 2 == 0), Ok(Some(_)))).count();
    let mut r: BufferInputReceiver<Nec> = BufferInputReceiver::with_frequenzy(1_000_000);
    assert_eq!(want, 1);
    assert_eq!(r.iter(&b).count(), want);
}
'''
