#!/bin/bash
# Undoes each fix commit by itself in a scratch copy of /repo and runs the
# checks of its properties against that: they should report a violation.
# usage: verify_fixes.sh [commit...]
H=$(cd "$(dirname "$0")/.." && pwd)
one() {
  read -r c ps <<< "$1"
  d=$(mktemp -d /tmp/unfix.XXXXXX)
  cp -a /repo "$d/repo"
  cd "$d/repo" || exit
  if ! git revert -n -X theirs "$c" > /dev/null 2>&1; then
    echo "$c $ps CONFLICT"
  else
    r=""
    for p in ${ps//,/ }; do
      o=$(AUXI_REPO=$d/repo bash "$H/run_check.sh" "$p" quick 2>&1)
      if grep -q "^VIOLATION property=$p" <<< "$o"; then r="$r $p:caught"; else r="$r $p:missed"; fi
    done
    echo "$c$r"
  fi
  cd /; rm -rf "$d"
}
export -f one; export H
if [ $# -gt 0 ]; then grep -E "^($(IFS='|'; echo "$*"))" "$H/tools/fixes.txt"; else cat "$H/tools/fixes.txt"; fi |
  xargs -P 6 -d '\n' -I{} bash -c 'one "{}"'
