#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3 checks/run.py "$@"
