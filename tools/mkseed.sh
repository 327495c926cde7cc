#!/bin/sh
# mkseed.sh ID "crate-path ..." : write seeded/ID/demo.sh for seeded/ID/main.rs using crates at these repo-relative paths (development helper)
cd "$(dirname "$0")/.."; d=seeded/$1; deps=$2
cat > $d/demo.sh <<EOF
#!/bin/bash
# builds main.rs against the crates of the current directory's repository and runs it
set -e
here=\$(cd "\$(dirname "\$0")" && pwd)
repo=\$(pwd)
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_INCREMENTAL=0 DEMO_REPO=\$repo
w=\$(mktemp -d)
trap 'find "\$w" -delete' EXIT
mkdir "\$w/src"
cp "\$here/main.rs" "\$w/src/main.rs"
cp "\$repo/Cargo.lock" "\$w/Cargo.lock" 2>/dev/null || cp "\$here/Cargo.lock" "\$w/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\n'
  for c in $deps; do case \$c in *@*) printf '%s = "%s"\n' "\${c%@*}" "\${c#*@}";; *) printf '%s = { path = "%s/%s" }\n' "\${c##*/}" "\$repo" "\$c";; esac; done
  printf '\n[workspace]\n\n[patch.crates-io]\n'
  for c in derive-visitor derive-visitor-macros socket2; do printf '%s = { path = "%s/third_party/%s" }\n' "\$c" "\$repo" "\$c"; done
} > "\$w/Cargo.toml"
cd "\$w"
CARGO_TARGET_DIR="\$w/target" cargo build --offline --quiet 2>"\$w/log" || { cat "\$w/log"; exit 99; }
timeout 120 "\$w/target/debug/demo"
EOF
cp drivers/types/Cargo.lock $d/Cargo.lock; chmod +x $d/demo.sh
