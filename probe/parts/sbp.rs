use infrared::protocol::{sbp::SbpCommand, Sbp};
fn v_sbp(c: &SbpCommand) -> Vec<u32> {
    vec![c.address as u32, c.command as u32, c.valid as u32]
}
pub fn go_sbp(p: &str, f: u32, ev: &[Edge]) -> Option<Vec<Row>> {
    (p == "sbp").then(|| rows!(Sbp, any, f, ev, v_sbp))
}
pub fn api_sbp() {
    let _: Receiver<Sbp> = infrared::receiver().samsung_bluray().build();
    let _: PeriodicPoll<Sbp> = infrared::receiver().samsung_bluray().build_polled();
    traits::<SbpCommand>();
    assert_eq!(v_sbp(&SbpCommand::unpack(7, 0x0fe_010)), v_sbp(&SbpCommand { address: 7, command: 1, valid: true }));
    assert_eq!(addr::<SbpCommand>(12, 34), Some((12, 34)));
}
