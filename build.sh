#!/bin/bash
# Build sim/target/release/atsim from /repo's current working tree, offline.
# cargo decides what is stale by modification time; a content hash makes sure that a changed
# /repo is always rebuilt, however its files got there.
set -u
cd "$(dirname "$0")/sim" || exit 2
mkdir -p target || exit 2
exec 9>target/.atsim-lock
flock 9
hash=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum) | sha256sum)
if [ "$(cat target/.repo-hash 2>/dev/null)" != "$hash" ]; then
  rm -f target/.repo-hash
  cargo clean --release --offline -p async-tiff >/dev/null 2>&1
fi
if ! cargo build --release --offline --locked >target/.build.log 2>&1; then
  cat target/.build.log >&2
  echo "HARNESS-ERROR the simulator does not build" >&2
  exit 2
fi
echo "$hash" >target/.repo-hash
