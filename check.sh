#!/bin/bash
# check.sh PROPERTY: decides one property on /repo's current source.
id="$1"
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
[ -x "$here/bin/vchk" ] || bash "$here/setup.sh" || exit 2
limit=700
[ "$VERIF_TIER" = thorough ] && limit=3600
timeout -k 5 "$limit" "$here/bin/vchk" -prop "$id" -verif "$here"
rc=$?
[ $rc -le 1 ] && exit $rc
# The analysis itself ended without a verdict: nothing was decided.
mkdir -p "$here/evidence"
cat > "$here/evidence/$id.json" <<J
{"property": "$id", "tier": "${VERIF_TIER:-quick}", "seed": ${VERIF_SEED:-0}, "level": "other", "wall_s": 0, "violations": 0,
 "coverage": {"explanation": "the analysis ended with status $rc and decided nothing", "samples": ["no verdict"]}}
J
echo "$id: no verdict (analysis ended with status $rc)"
exit 0
