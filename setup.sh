#!/bin/bash
# Builds the simulator and every world from the committed files.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
cd "$here" || exit 1
for w in w-*; do
  ( cd "$w" && cargo build --release --offline --quiet ) || exit 1
done
