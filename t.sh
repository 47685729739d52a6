#!/bin/bash
# t.sh SECONDS NAME...: dev symbolic run, hard limit, output tail
S=$1; shift
cd /verif; export VERIF_REPO=${VERIF_REPO:-/tmp/wrepo} PYTHONDONTWRITEBYTECODE=1
setsid timeout -k 1 $S python3-vt -W ignore try.py "$@" > /tmp/t.out 2>&1 < /dev/null
pkill -9 -f 'try.py '"$1" 2>/dev/null
tail -${LINES_OUT:-14} /tmp/t.out | cut -c1-1500
