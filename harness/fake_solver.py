#!/bin/sh
# Stand-in for the proprietary pomdp-solve executable: only its presence matters
# for the construction of models. Copies prepared solution files if any.
if [ -n "$VERIF_FAKE_SOLUTION" ]; then
  echo "$@" > "$VERIF_FAKE_SOLUTION.args"
  while [ $# -gt 0 ]; do
    case "$1" in
      -o) name="$2"; shift;;
      -pomdp) cp "$2" "$VERIF_FAKE_SOLUTION.pomdp"; shift;;
    esac
    shift
  done
  cp "$VERIF_FAKE_SOLUTION.alpha" "./$name.alpha"
  cp "$VERIF_FAKE_SOLUTION.pg" "./$name.pg"
fi
exit ${VERIF_FAKE_STATUS:-0}
