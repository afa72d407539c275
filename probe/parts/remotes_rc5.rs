use infrared::remotecontrol::rc5::CdPlayer;
pub fn rows_remotes_rc5(p: &str, f: u32, ev: &[Edge]) -> Vec<Row> {
    if p == "rc5" { run_remote::<Rc5, CdPlayer>(f, ev, v_rc5) } else { vec![] }
}
pub fn api_remotes_rc5() {
    remote::<CdPlayer>(ProtocolId::Rc5, true);
}
