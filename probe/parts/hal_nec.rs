pub fn api_hal_nec() {
    hal_send::<Nec>(&NecCommand { addr: 1, cmd: 2, repeat: false }, v_nec);
    hal_send::<Nec16>(&Nec16Command { addr: 500, cmd: 2, repeat: false }, v_nec16);
    hal_send::<SamsungNec>(&SamsungNecCommand { addr: 1, cmd: 2, repeat: false }, v_samsung);
}
