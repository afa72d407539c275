prop = 'C08'
needs = 'an RC6 receiver that saw the leader of a frame that broke off right after it'
breaks = 'an edge that does not fit leaves the receiver in the leader state, the next frame is lost'
edits = [('src/protocol/rc6/decoder.rs', '            (Leading,       _,        _)            => Idle,', '            (Leading,       false,    Some(_))      => Idle,\n            (Leading,       true,     _)            => Leading,\n            (Leading,       _,        _)            => Idle,'), ('src/protocol/rc6/decoder.rs', '            (Trailing,      _,          _)          => Idle,', '            (Trailing,      true,       Some(4))    => Trailing,\n            (Trailing,      _,          Some(_))    => Idle,\n            (Trailing,      _,          None)       => Trailing,'), ('src/protocol/rc6/decoder.rs', '            self.clock += ticks;\n        } else {\n            self.reset();', '            self.clock += ticks;\n        } else if !matches!(self.state, Trailing) {\n            self.reset();')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    // the frame breaks off within the trailer
    let full = rc6(1, 2, false);
    for n in 1..full.len() {
        let mut ev = full[..n].to_vec();
        if ev.last().unwrap().0 { ev.push((false, 444)); }
        ev.extend(rc6(5, 6, false));
        let got = rx::<infrared::protocol::Rc6>(1_000_000, &ev);
        assert!(got.iter().any(|s| s.contains("addr: 5, cmd: 6")), "{n}: {got:?}");
    }
}
'''
