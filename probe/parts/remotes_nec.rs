use infrared::remotecontrol::nec::{Apple2009, SamsungTv, SpecialForMp3};
pub fn rows_remotes_nec(p: &str, f: u32, ev: &[Edge]) -> Vec<Row> {
    match p {
        "apple" => run_remote::<AppleNec, Apple2009>(f, ev, v_apple),
        "samsung" => run_remote::<SamsungNec, SamsungTv>(f, ev, v_samsung),
        "nec" => run_remote::<Nec, SpecialForMp3>(f, ev, v_nec),
        _ => vec![],
    }
}
pub fn api_remotes_nec() {
    remote::<Apple2009>(ProtocolId::NecApple, false);
    remote::<SamsungTv>(ProtocolId::NecSamsung, true);
    remote::<SpecialForMp3>(ProtocolId::Nec, true);
}
