#!/bin/sh
# fals.sh PROP SECONDS [more options]: run one falsifier by hand
P=$1; S=$2; shift 2
cd /verif/falsify && PYTHONPATH=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python run.py $P --seconds $S "$@" 2>/dev/null | cut -c1-1500
