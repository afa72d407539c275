prop = 'C21'
needs = 'the feature denon without the feature rc6'
breaks = 'the builder has no denon()'
edits = [('src/receiver/builder.rs', '    #[cfg(feature = "denon")]\n    pub fn denon', '    #[cfg(all(feature = "denon", feature = "rc6"))]\n    pub fn denon')]
demo_sh = '#!/bin/bash\n# Builds and runs a small program with only some features of the crate in the current directory.\nrepo=$(pwd)\nd=$(mktemp -d)\ntrap \'rm -rf "$d"\' EXIT\nmkdir -p "$d/src"\ncat > "$d/src/main.rs" <<END\nfn main() { let _ = infrared::receiver().denon().build(); }\nEND\ncat > "$d/Cargo.toml" <<END\n[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\ninfrared = { path = "$repo", default-features = false, features = ["denon"] }\nEND\ncd "$d" && CARGO_NET_OFFLINE=true timeout 250 cargo run --offline --quiet\n'
