#!/bin/sh
# check.sh PROPERTY quick|thorough [--seed N] [--runs N] [--only I,J]
# check.sh replay FILE | plan PROPERTY INDEX | selftest
cd "$(dirname "$0")" || exit 2
py="env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m dst"
case "$1" in
replay|plan|selftest) exec $py "$@" ;;
esac
prop=$1
tier=${2:-quick}
[ $# -ge 1 ] && shift
[ $# -ge 1 ] && shift
exec $py "$prop" --tier "$tier" "$@"
