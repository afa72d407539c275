prop = 'C05'
needs = 'a Blu-ray frame whose check byte is wrong in its lowest bit only'
breaks = 'the frame is marked valid'
edits = [('src/protocol/sbp/mod.rs', '        let valid = ((command ^ (command >> 8)) & 0xFF) == 0xFF;', '        let valid = ((command ^ (command >> 8)) & 0xFE) == 0xFE;')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}
fn tail() -> Vec<(bool, u64)> { vec![(true, 90_000), (false, 300)] }

fn main() {
    for (check, valid) in [(0xDEu8, true), (0xDF, false), (0x5E, false)] {
        let mut ev = sbp(32, 3, 0x21, check);
        ev.extend(tail());
        assert_eq!(rx::<infrared::protocol::Sbp>(1_000_000, &ev), vec![format!("Ok(Some(SbpCommand {{ address: 32, command: 33, valid: {valid} }}))")]);
    }
}
'''
