#!/usr/bin/env bash
# runs the check of each planted bug's property (or of ALL properties with -a) against a scratch copy with the bug
cd "$(dirname "$0")/.."
(cd checker && GOFLAGS=-mod=vendor GOWORK=off go build -o /tmp/vkseed .) || exit 1
all=; [ "$1" = -a ] && { all=1; shift; }
for d in ${@:-$(ls seeded)}; do
  w=/tmp/seedrun.$d; rm -rf "$w"; cp -a /repo "$w"
  if ! git -C "$w" apply "$PWD/seeded/$d/patch.diff"; then echo "$d: does not apply"; rm -rf "$w"; continue; fi
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  ps=$p; [ -n "$all" ] && ps=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")
  res=; for q in $ps; do o=$(VERIF_DIR=/tmp/vkev timeout 600 /tmp/vkseed $q "$w" 2>&1); echo "$o" | grep -q "^VIOLATION" && { res="$res $q"; [ -z "$all" ] && m=$(echo "$o" | sed -n 2p | cut -c1-150); }; done
  case " $res " in *" $p "*) echo "$d $p caught:$res  $m";; *) echo "$d $p MISSED:$res";; esac
  m=; rm -rf "$w"
done
