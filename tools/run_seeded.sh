#!/bin/bash
# run_seeded.sh [ID...]: each planted change of seeded/ in a scratch copy of /repo: does the patch apply, does the demo
# tell it apart, and does the property's quick check report it.  Writes one line per change (used for DESIGN.md section 5).
PY=/opt/venv/bin/python
here=$(cd "$(dirname "$0")/.." && pwd)
wt=$(mktemp -d /tmp/seeded-XXXXXX)
trap '/bin/rm -rf "$wt"' EXIT
for d in "$here"/seeded/*/; do
  id=$(basename "$d")
  if [ $# -gt 0 ]; then case " $* " in *" $id "*) ;; *) continue;; esac; fi
  /bin/rm -rf "$wt/repo"; cp -a /repo "$wt/repo"
  p=$($PY -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  if ! git -C "$wt/repo" apply "$d/patch.diff" 2>/dev/null; then echo "$id $p PATCH-DOES-NOT-APPLY"; continue; fi
  (cd /repo && bash "$d/demo.sh" >/dev/null 2>&1) || echo "$id $p DEMO-FAILS-UNCHANGED"
  (cd "$wt/repo" && bash "$d/demo.sh" >/dev/null 2>&1) && echo "$id $p DEMO-PASSES-CHANGED"
  out=$(cd "$here" && TFMON_REPO="$wt/repo" VERIF_SEED=1 $PY -B -m tfmon.run "$p" --tier quick 2>&1); rc=$?
  if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$p " <<<"$out"; then echo "$id $p caught"; else echo "$id $p MISSED (rc $rc)"; fi
done
