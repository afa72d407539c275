pub fn api_defmt_nec() {
    fmt::<NecCommand>();
    fmt::<Nec16Command>();
    fmt::<SamsungNecCommand>();
    fmt::<AppleNecCommand>();
    fmt::<NecDebugCmd>();
}
