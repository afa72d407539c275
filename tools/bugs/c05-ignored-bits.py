prop = 'C05'
needs = 'a Blu-ray frame in which all four ignored bits are one'
breaks = 'the frame is marked invalid'
edits = [('src/protocol/sbp/mod.rs', '        // Discard the 4 unknown bits\n        command >>= 4;\n\n        // Check the checksum\n        let valid = ((command ^ (command >> 8)) & 0xFF) == 0xFF;', '        let flags = command & 0xF;\n\n        // Discard the 4 unknown bits\n        command >>= 4;\n\n        // Check the checksum\n        let valid = ((command ^ (command >> 8)) & 0xFF) == 0xFF && flags != 0xF;')]
demo = '''
fn rx<P: infrared::receiver::DecoderBuilder<u32>>(f: u32, ev: &[(bool, u64)]) -> Vec<String> where P::Cmd: core::fmt::Debug {
    let mut r: infrared::Receiver<P> = infrared::Receiver::new(f);
    ev.iter().map(|(e, us)| format!("{:?}", r.event(ticks(*us, f), *e))).filter(|s| s != "Ok(None)").collect()
}

fn main() {
    let got = rx::<infrared::protocol::Sbp>(1_000_000, &sbp(1, 15, 2, !2));
    assert_eq!(got, vec!["Ok(Some(SbpCommand { address: 1, command: 2, valid: true }))"]);
}
'''
