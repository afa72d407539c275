prop = 'C07'
needs = "a Denon header in the middle of a Denon frame, then a complete frame's worth of bits"
breaks = 'the frame that broke off is merged into the next one'
edits = [('src/protocol/denon/mod.rs', '                (DenonState::Data(_ix),     _)                  => DenonState::Idle,', '                (DenonState::Data(_ix),     width)              => if matches!(width, PulseWidth::Sync) { DenonState::Data(0) } else { DenonState::Idle },')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    // broken off after eight bits, the next header follows at once
    let mut ev = denon(0xFF)[..19].to_vec();
    ev.push((false, 480));
    ev.extend(vec![(true, 360)]);
    ev.extend_from_slice(&denon(0xAB00)[1..]);
    ev.extend(tail());
    for s in rx::<infrared::protocol::Denon>(1_000_000, &ev) {
        assert!(!s.contains("Some") || s.contains(&format!("bits: {}", 0xAB00)), "{s}");
    }
}
'''
