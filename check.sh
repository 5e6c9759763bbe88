#!/bin/bash
# check.sh ID           decide one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE  reproduce a recorded violation
here=$(cd "$(dirname "$0")" && pwd)
. "$here/tools/env.sh"
cd "$here" || exit 2
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
id=$1
[ "$id" = replay ] && id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")
case "$id" in
  U*|X*) w=w-util ;;
  M*) w=w-merkle ;;
  K*) w=w-pcs ;;
  S*|V*|E*|A*|H*) w=w-crypto ;;
  R*|Z*) w=w-plonk ;;
  G*) w=w-gadget ;;
  *) echo "unknown property $id" >&2; exit 2 ;;
esac
( cd "$w" && cargo build --release --offline --quiet ) >&2 || { echo "building $w failed" >&2; exit 2; }
if [ "$1" = replay ]; then
  exec "$CARGO_TARGET_DIR/release/$w" replay "$2"
fi
exec "$CARGO_TARGET_DIR/release/$w" check "$id"
