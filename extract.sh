#!/bin/bash
# Build the MIR exporter if needed and (re)export the facts of /repo's current working tree.
#   extract.sh OUTDIR     writes OUTDIR/cbm.json (library) and OUTDIR/cdisk.json (binary)
set -euo pipefail
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${CBM_REPO:-/repo}"
OUT="$1"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH"
SYSROOT="$(rustc +nightly --print sysroot)"
DRV="$HERE/build/driver/release/mirfacts"
mkdir -p "$HERE/build" "$OUT"; OUT="$(cd "$OUT" && pwd)"
exec 9>"$HERE/build/.lock"
flock 9
if [ ! -x "$DRV" ] || [ "$HERE/driver/src/main.rs" -nt "$DRV" ]; then
  (cd "$HERE/driver" && CARGO_TARGET_DIR="$HERE/build/driver" cargo +nightly build --release --offline -q) >&2
fi
TGT="$(mktemp -d "${TMPDIR:-/tmp}/mirfacts.XXXXXX")"
trap 'rm -rf "$TGT"' EXIT
# /repo's Cargo.lock is not tracked; never write one there: work from a manifest mirror.
mkdir -p "$TGT/ws"
ln -s "$REPO/src" "$TGT/ws/src"
cp "$REPO/Cargo.toml" "$TGT/ws/Cargo.toml"
if [ -f "$REPO/Cargo.lock" ]; then cp "$REPO/Cargo.lock" "$TGT/ws/Cargo.lock";
elif [ -f /opt/vp/Cargo.lock ]; then cp /opt/vp/Cargo.lock "$TGT/ws/Cargo.lock";
else cp "$HERE/Cargo.lock.repo" "$TGT/ws/Cargo.lock"; fi
[ -d "$REPO/tests" ] && ln -s "$REPO/tests" "$TGT/ws/tests"
[ -f "$REPO/README.md" ] && ln -s "$REPO/README.md" "$TGT/ws/README.md"
rm -f "$OUT"/*.json
export LD_LIBRARY_PATH="$SYSROOT/lib:${LD_LIBRARY_PATH:-}"
export RUSTC_WORKSPACE_WRAPPER="$DRV" MIRFACTS_OUT="$OUT"
export RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no -Cdebug-assertions=on -Coverflow-checks=on -Awarnings"
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
( cd "$TGT/ws" && CARGO_TARGET_DIR="$TGT/t" CARGO_INCREMENTAL=0 cargo +nightly check --offline --lib --bins ) >"$OUT/extract.log" 2>&1 || { cat "$OUT/extract.log" >&2; exit 3; }
# instances of public generic functions the repository itself does not use (best effort: rules that need them are undecided without)
cp "$HERE/driver/vinst.rs" "$TGT/ws/vinst.rs"
printf '\n[[bin]]\nname = "vinst"\npath = "vinst.rs"\n' >> "$TGT/ws/Cargo.toml"
( cd "$TGT/ws" && CARGO_TARGET_DIR="$TGT/t" CARGO_INCREMENTAL=0 cargo +nightly check --offline --bin vinst ) >>"$OUT/extract.log" 2>&1 || rm -f "$OUT/vinst.json"
[ -s "$OUT/cbm.json" ] && [ -s "$OUT/cdisk.json" ] || { echo "no facts exported" >&2; exit 3; }
