#!/bin/bash
# ./check.sh C01 [--tier thorough]      decide one property
# ./check.sh replay FILE                re-run one counterexample on the real code
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
unset PYTHONPATH
if [ "$1" = replay ]; then exec /opt/venv/bin/python -m symx.run replay --only "$2"; fi
exec /opt/venv/bin/python -m symx.run "$@"
