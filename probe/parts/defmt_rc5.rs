pub fn api_defmt_rc5() {
    fmt::<Rc5Command>();
}
