prop = 'C06'
needs = 'a Denon frame of 48 zeros'
breaks = 'an empty frame is not reported'
edits = [('src/protocol/denon/mod.rs', 'if self.state == DenonState::Done {', 'if self.state == DenonState::Done && self.buf != 0 {')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    assert_eq!(rx::<infrared::protocol::Denon>(1_000_000, &denon(0)).len(), 1);
}
'''
