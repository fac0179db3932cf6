#!/bin/bash
# check.sh PROPERTY [quick|thorough] [replay FILE]
cd "$(dirname "$0")" || exit 2
V=$PWD
TIER=${2:-${VERIF_TIER:-quick}}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GOTELEMETRY=off
[ -x bin/veng ] && [ -z "$(find engine -newer bin/veng -name '*.go' 2>/dev/null)" ] || bash ./setup.sh >&2 || { echo "engine does not build" >&2; exit 2; }
if [ "$3" = replay ]; then
	exec bin/veng check -repo /repo -verif "$V" -prop "$1" -tier "$TIER" -replay "$4"
fi
exec bin/veng check -repo /repo -verif "$V" -prop "$1" -tier "$TIER" -seed "${VERIF_SEED:-1}" ${VERIF_ARGS}
