#!/bin/sh
# sh run.sh <property> [quick|thorough] [contract...]
cd "$(dirname "$0")" || exit 3
. ./env.sh
exec /opt/venv/bin/python -m vf.main "$@"
