pub fn api_hal_rc5() {
    hal_send::<Rc5>(&Rc5Command { addr: 1, cmd: 2, start: 3, toggle: false }, v_rc5);
}
