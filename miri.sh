#!/bin/bash
# The probe, interpreted. The program was built by run.sh.
cd "$(dirname "$0")/probe" || exit 3
export MIRIFLAGS="-Zmiri-disable-isolation ${MIRI_MORE:-}"
exec cargo +nightly miri run --offline -q --target-dir ../target/miri -- "$@"
