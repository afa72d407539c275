pub fn api_defmt_remotes() {
    fmt::<Action>();
    fmt::<DeviceType>();
}
