pub fn api_defmt_rc6() {
    fmt::<Rc6Command>();
}
