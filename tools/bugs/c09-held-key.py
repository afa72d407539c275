prop = 'C09'
needs = 'more than 127 repeat codes in a row after one frame'
breaks = 'the repeat codes of a key held down that long are dropped, for the rest of the key press'
edits = [('src/protocol/nec/decoder.rs', '    // The data buffer holds a complete frame\n    complete: bool,', '    // The data buffer holds a complete frame\n    complete: bool,\n    repeats: u8,'), ('src/protocol/nec/decoder.rs', '            complete: false,\n', '            complete: false,\n            repeats: 0,\n'), ('src/protocol/nec/decoder.rs', '(Init,              Repeat) => RepeatDone,', '(Init,              Repeat) => { self.repeats = (self.repeats + 1).min(128); RepeatDone }'), ('src/protocol/nec/decoder.rs', '(Init,              Sync)   => { self.bitbuf = 0; self.complete = false; Receiving(0) },', '(Init,              Sync)   => { self.bitbuf = 0; self.complete = false; self.repeats = 0; Receiving(0) },'), ('src/protocol/nec/decoder.rs', 'NecState::RepeatDone if self.complete =>', 'NecState::RepeatDone if self.complete && self.repeats < 128 =>')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    let mut ev = nec(0xFD02_FE01);
    for _ in 0..200 { ev.extend(nec_repeat()); }
    assert_eq!(rx::<infrared::protocol::Nec>(1_000_000, &ev).len(), 201);
}
'''
