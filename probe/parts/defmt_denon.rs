pub fn api_defmt_denon() {
    fmt::<DenonCommand>();
}
