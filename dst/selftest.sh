#!/bin/bash
# One seed is one execution: the hash of every recorded history must not depend on worker count, hash seed or repetition.
# usage: dst/selftest.sh [RUNS] [PROPS...]
cd "$(dirname "$0")/.." || exit 2
n=${1:-60}; shift
props=${*:-$(seq -f 'P%02g' 1 37)}
tmp=$(mktemp -d); bad=0
for p in $props; do
  PYTHONHASHSEED=0 /opt/venv/bin/python -m dst.run "$p" --runs "$n" --seed 5 --workers 8 --no-evidence --hashes "$tmp/a" >/dev/null 2>&1
  PYTHONHASHSEED=77 /opt/venv/bin/python -m dst.run "$p" --runs "$n" --seed 5 --workers 3 --no-evidence --hashes "$tmp/b" >/dev/null 2>&1
  if [ -s "$tmp/a" ] && cmp -s <(sort "$tmp/a") <(sort "$tmp/b"); then echo "$p: $(wc -l <"$tmp/a") histories identical"; else echo "$p: DIFFERENT"; bad=1; fi
  rm -f "$tmp/a" "$tmp/b"
done
rmdir "$tmp"; exit $bad
