use infrared::remotecontrol::sbp::SamsungBluRayPlayer;
pub fn rows_remotes_sbp(p: &str, f: u32, ev: &[Edge]) -> Vec<Row> {
    if p == "sbp" { run_remote::<Sbp, SamsungBluRayPlayer>(f, ev, v_sbp) } else { vec![] }
}
pub fn api_remotes_sbp() {
    remote::<SamsungBluRayPlayer>(ProtocolId::Sbp, true);
}
