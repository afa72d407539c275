prop = 'C15'
needs = 'a pin less receiver fed with time stamps, and a broken frame'
breaks = 'the time stamp of the edge at which a frame breaks does not become the reference of the next edge'
edits = [('src/receiver.rs', '        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n        self.prev_instant = t;\n\n        self.event_edge(dt, edge)\n', '        let dt = Mono::checked_sub(t, self.prev_instant).unwrap_or(Mono::ZERO_DURATION);\n\n        let cmd = self.event_edge(dt, edge)?;\n        self.prev_instant = t;\n        Ok(cmd)\n')]
demo = '''
fn main() {
    let mut ev = nec(0xFD02_FE01);
    ev[10].1 = 5000;
    ev.truncate(12);
    ev.extend([(true, 9000), (false, 9000), (true, 4500)]);
    ev.extend(nec(0xFD02_FE01));
    let mut a: infrared::Receiver<infrared::protocol::Nec> = infrared::Receiver::new(1_000_000);
    let mut b: infrared::Receiver<infrared::protocol::Nec> = infrared::Receiver::new(1_000_000);
    let mut t = 0;
    for (e, us) in ev {
        t += us as u32;
        assert_eq!(a.event(us as u32, e), b.event_instant(t, e));
    }
}
'''
