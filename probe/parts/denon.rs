use infrared::protocol::{denon::DenonCommand, Denon};
fn v_denon(c: &DenonCommand) -> Vec<u32> {
    vec![(c.bits & 0xFFFF) as u32, (c.bits >> 16 & 0xFFFF) as u32, (c.bits >> 32 & 0xFFFF) as u32, (c.bits >> 48) as u32]
}
pub fn go_denon(p: &str, f: u32, ev: &[Edge]) -> Option<Vec<Row>> {
    (p == "denon").then(|| rows!(Denon, any, f, ev, v_denon))
}
pub fn api_denon() {
    let _: Receiver<Denon> = infrared::receiver().denon().build();
    let _: PeriodicPoll<Denon> = infrared::receiver().denon().build_polled();
    traits::<DenonCommand>();
    assert_eq!(AnyCommand::from(DenonCommand { bits: 77 }).raw, 77);
}
