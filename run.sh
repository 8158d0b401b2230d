#!/bin/bash
# run.sh ID [tier] [options]: rebuilds the custom ops from /repo's working tree and runs the check of one property.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
. /opt/vp/env.sh
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
REPO=${VERIF_REPO:-/repo}
[ "$REPO" = /repo ] || eval "$(declare -f build_ops | sed "s#cd /repo#cd $REPO#")"  # development: a copy
log=$(mktemp); ( build_ops ) >"$log" 2>&1 || { echo "build of the custom ops failed"; tail -20 "$log"; rm -f "$log"; exit 2; }
rm -f "$log"
export PYTHONPATH=/opt/vp/compat:$REPO:$here
export TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
cd "$here" && exec python -m vlib.main "$id" "$tier" "$@"
