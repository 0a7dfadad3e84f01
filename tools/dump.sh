#!/bin/bash
# dump.sh OUTDIR [TARGETDIR] [rustc flags]: MIR of every function of /repo's current source (after drop elaboration) into OUTDIR.
# The crate itself is always compiled afresh (no incremental state, no fingerprint), its dependencies are reused.
out="$1"; tgt="${2:-/verif/build/target}"; shift; shift
rm -rf "$out"; mkdir -p "$out" "$tgt"
rm -rf "$tgt"/debug/.fingerprint/certified-vars-* "$tgt"/debug/incremental
cd "${VERIF_REPO:-/repo}" && CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true cargo rustc --offline --lib --target-dir "$tgt" -- \
  -Zdump-mir=ElaborateDrops -Zdump-mir-dir="$out" -Zdump-mir-exclude-pass-number=yes "$@"
