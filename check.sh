#!/bin/bash
# ./check.sh <property> [--tier quick|thorough]: decides one property from /repo's current source
cd "$(dirname "$0")" || exit 2
stale=0
if [ ! -x bin/coniksa ]; then stale=1; else
  for f in sa/*.go sa/go.mod; do [ "$f" -nt bin/coniksa ] && stale=1; done
fi
if [ $stale = 1 ]; then
  ( bash sa/build.sh ) >&2 || exit 2
fi
. ./env.sh
exec bin/coniksa check "$@"
