pub fn api_hal_rc6() {
    hal_send::<Rc6>(&Rc6Command { addr: 1, cmd: 2, toggle: false }, v_rc6);
}
