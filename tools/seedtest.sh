#!/bin/bash
# seedtest.sh ID...: tries planted bugs in a scratch copy of the repository: does the patch apply,
# build and pass the stable tests, does the demonstration tell the trees apart, which checks notice.
# CHECKS="C01 C02" names other checks than the one of the property; NOCHECK=1 runs none.
verif=$(cd "$(dirname "$0")/.." && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
for id in "$@"; do
	dir=$verif/seeded/$id
	prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$dir/meta.json")
	tmp=$(mktemp -d /tmp/verif-seed.XXXXXX)
	mkdir "$tmp/demo" && cp "$dir"/* "$tmp/demo/" && rm -f "$tmp/demo/patch.diff" "$tmp/demo/meta.json"
	cp -a /repo "$tmp/repo"
	cd "$tmp/repo" || exit 1
	git checkout -q -- . 
	timeout 300 bash "$tmp/demo/demo.sh" >"$tmp/clean.log" 2>&1; clean=$?
	git status --short | head -3
	if ! git apply "$dir/patch.diff"; then echo "$id: patch does not apply"; rm -rf "$tmp"; continue; fi
	orig=$(python3 - "$dir/patch.diff" <<'P'
import re,subprocess,sys
# lines of the first commit that the patch removes or that stand around what it adds
f=None; n=0; hit=0
for l in open(sys.argv[1]):
    if l.startswith('--- '): f=l[6:].strip()
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-'):
        b=subprocess.run(['git','blame','-s','-L',f'{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
        hit+=b.startswith('^'); n+=1
    elif l.startswith(' '): n+=1
print(hit)
P
)
	go build ./... >"$tmp/build.log" 2>&1 || { echo "$id: does not build"; cat "$tmp/build.log"; rm -rf "$tmp"; continue; }
	rm -f internal/vssgen/test.tson
	go test -json -vet=off -count=1 ./... >"$tmp/test.json" 2>/dev/null
	miss=$(python3 - "$tmp/test.json" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
st=base.get('stable') or base.get('passed') or base.get('tests') or base
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test'].split('/')[0]); ok.add(e['Test'])
bad=[t for t in st if not any(t==o or t.endswith('/'+o) or t.endswith('::'+o) or t.endswith(' '+o) or t.endswith('.'+o) for o in ok)]
print(bad)
P
)
	git checkout -q -- . 2>/dev/null; git clean -fdq; git apply "$dir/patch.diff"
	timeout 300 bash "$tmp/demo/demo.sh" >"$tmp/bug.log" 2>&1; bug=$?
	echo "$id ($prop): original lines changed $orig, stable tests missing $miss, demo clean=$clean patched=$bug"
	[ "$clean" = 0 ] || tail -5 "$tmp/clean.log"
	[ "$bug" = 0 ] && tail -5 "$tmp/bug.log"
	if [ -z "$NOCHECK" ]; then
		git checkout -q -- . ; git clean -fdq; git apply "$dir/patch.diff"
		for c in ${CHECKS:-$prop}; do
			mkdir -p "$tmp/v"; cp -a "$verif/." "$tmp/v/"; rm -rf "$tmp/v/evidence"
			s=$(date +%s)
			VERIF_SEED=1 VERIF_REPO="$tmp/repo" bash "$tmp/v/check.sh" "$c" quick >"$tmp/check.log" 2>&1; rc=$?
			echo "   check $c: exit $rc after $(( $(date +%s) - s )) s: $(grep -a -m1 VIOLATION "$tmp/check.log") $(tail -1 "$tmp/check.log" | cut -c1-300)"
		done
	fi
	rm -rf "$tmp"
done
