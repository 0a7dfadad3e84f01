#!/bin/bash
# setup: builds the dependencies of the harness and of the MIR dump once, offline.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
tools/dump.sh /verif/build/mir0 /verif/build/target >/dev/null 2>build/setup.log
rm -rf /verif/build/mir0
cd harness && CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 cargo build --offline --target-dir /verif/build/htarget 2>>../build/setup.log
CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 cargo build --offline --profile nodbg --target-dir /verif/build/htarget 2>>../build/setup.log
