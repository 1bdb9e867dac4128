#!/bin/bash
# Determinism self-test: every check's first runs, executed twice and by other worker processes in another order, must have identical digests.
# Usage: ./selftest.sh [RUNS] [CHECK...]
cd "$(dirname "$0")" || exit 2
n=${1:-40}; shift
checks=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}
py=/opt/venv/bin/python
rc=0
t=$(mktemp -d)
one() { # name start step count
  PYTHONHASHSEED=0 DST_DIGESTS=$t/$1 PYTHONDONTWRITEBYTECODE=1 $py -m dst.main worker "$c" quick 1 "$2" "$3" "$4" $(($(date +%s) + 600)) >/dev/null 2>&1
}
for c in $checks; do
  one a 0 1 "$n" & one b 0 1 "$n" & one c0 0 2 "$n" & one c1 1 2 "$n" & wait
  sort "$t/c0" "$t/c1" >"$t/c"; sort "$t/a" >"$t/as"; sort "$t/b" >"$t/bs"
  if cmp -s "$t/as" "$t/bs" && cmp -s "$t/as" "$t/c" && [ "$(wc -l <"$t/as")" = "$n" ]; then echo "$c deterministic over $n runs"; else
    echo "$c DIFFERS"; diff "$t/as" "$t/bs" | head -4; diff "$t/as" "$t/c" | head -4; rc=1; fi
  rm -f "$t"/*
done
rmdir "$t"
exit $rc
