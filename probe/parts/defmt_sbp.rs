pub fn api_defmt_sbp() {
    fmt::<SbpCommand>();
}
