prop = 'C07'
needs = 'an RC6 frame whose leader is followed by a space of one unit instead of two and whose start bit is longer'
breaks = 'the malformed frame gives a command'
edits = [('src/protocol/rc6/decoder.rs', '            (LeadingPaus,   true,     Some(2))      => HeaderData(3),', '            (LeadingPaus,   true,     Some(2 | 4))  => HeaderData(3),')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    let mut ev = rc6(1, 2, false);
    ev[2].1 = 4 * 444;
    ev.push((true, 90_000));
    assert!(rx::<infrared::protocol::Rc6>(1_000_000, &ev).iter().all(|s| !s.contains("Some")), "phantom command");
}
'''
