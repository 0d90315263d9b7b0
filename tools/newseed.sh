#!/bin/bash
# newseed.sh NAME PROPERTY : makes seeded/NAME from the uncommitted change in /tmp/seedrepo (a copy of /repo)
# and the demonstration /tmp/seeds/NAME.rs; meta text from /tmp/seeds/NAME.needs and NAME.breaks.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"; N="$1"; P="$2"; D="$V/seeded/$N"
mkdir -p "$D/jemallocator/src" "$D/src"
git -C /tmp/seedrepo diff > "$D/patch.diff"
cp "$V/harness/stubs/jemallocator/Cargo.toml" "$D/jemallocator/"; cp "$V/harness/stubs/jemallocator/src/lib.rs" "$D/jemallocator/src/"
cp "$V/harness/Cargo.lock" "$D/Cargo.lock.txt"
cp "/tmp/seeds/$N.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml.txt" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
axmosdb = { path = "/repo/crates/axmos-db" }
[profile.dev]
opt-level = 1
debug = 0
incremental = false
[patch.crates-io]
jemallocator = { path = "jemallocator" }
X
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Everything happens in a scratch folder.
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2; trap 'find "$work" -delete' EXIT
mkdir -p "$work/p" "$work/data"; cp -r "$here/src" "$here/jemallocator" "$work/p/"; cp "$here/Cargo.toml.txt" "$work/p/Cargo.toml"; cp "$here/Cargo.lock.txt" "$work/p/Cargo.lock"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER= PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
export RUSTFLAGS="--cfg axmos_verif -Awarnings" CARGO_TARGET_DIR="$work/target"
cd "$work/data" || exit 2
cargo build --offline -q --manifest-path "$work/p/Cargo.toml" >"$work/log" 2>&1 || { tail -20 "$work/log"; exit 2; }
timeout 120 "$work/target/debug/demo" "$work/data"
X
chmod +x "$D/demo.sh"
python3 - "$D" "$P" "/tmp/seeds/$N" <<'X'
import json,sys
d,p,f=sys.argv[1:]
json.dump({"property":p,"needs":open(f+".needs").read().strip(),"what_it_breaks":open(f+".breaks").read().strip()},open(d+"/meta.json","w"),indent=1)
X
cat "$D/patch.diff" | head -40
