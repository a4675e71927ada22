#!/bin/bash
# Exit 0: the property held in this demonstration; nonzero: it is broken.
set -u
D=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$D"/*.rs "$T/src/"
FEAT=$(sed -n 's,^// features: ,,p' "$D/demo.rs" | head -1)
[ -n "$FEAT" ] || FEAT='features = ["static"]'
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/demo.rs"
[dependencies]
thingbuf = { path = "$REPO", $FEAT }
[profile.dev]
debug = 0
[workspace]
E
cd "$T" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTUP_TOOLCHAIN
MODE=$(sed -n 's,^// mode: ,,p' src/demo.rs | head -1)
case "$MODE" in
  mini) export RUSTFLAGS="--cfg thingbuf_sim $(sed -n 's,^// cfg: ,--cfg ,p' src/demo.rs) --cap-lints allow"; RUN="cargo run -q --offline" ;;
  miri) export MIRIFLAGS="$(sed -n 's,^// miriflags: ,,p' src/demo.rs | head -1)"; RUN="cargo +nightly miri run -q --offline" ;;
  *) export RUSTFLAGS="--cap-lints allow"; RUN="cargo run -q --offline" ;;
esac
timeout -k 5 250 $RUN 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
