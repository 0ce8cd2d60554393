#!/bin/bash
# newseed.sh ID PROPERTY "needs" "breaks": takes the current diff of /repo and main.rs from stdin, makes /verif/seeded/ID, reverts /repo
set -e
id=$1; d=/verif/seeded/$id; mkdir -p $d
git -C /repo diff > $d/patch.diff; test -s $d/patch.diff
cat > $d/main.rs
cat > $d/demo.sh <<'D'
#!/bin/bash
# exit 0: behaviour as promised; nonzero: the promise is broken
d="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)" || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" && cp "$d/main.rs" "$w/src/main.rs"
[ -e /repo/Cargo.lock ] && cp /repo/Cargo.lock "$w/Cargo.lock"
FEAT="${FEAT:-serde}"
[ -e "$d/features" ] && FEAT="$(cat "$d/features")"
EXTRA=""; [ -e "$d/deps" ] && EXTRA="$(cat "$d/deps")"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
[workspace]
[dependencies]
rabe-bn = { path = "/repo", default-features = false, features = ["$FEAT"] }
rand = "0.8.5"
$EXTRA
[profile.dev]
opt-level = 1
T
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_INCREMENTAL=0
cd "$w" && timeout 250 cargo run --quiet --offline
D
python3 - "$2" "$3" "$4" > $d/meta.json <<'P'
import sys,json
print(json.dumps({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},indent=1))
P
git -C /repo checkout -- .
