#!/bin/bash
# hunt.sh [-a] [ID...]: runs the check of each planted bug's property (-a: every check) against it, in a scratch copy.
here=$(cd "$(dirname "$0")/.." && pwd); . "$here/env.sh"; NC=${NC:-/tmp/nc}
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# -gt 0 ] || set -- $(ls "$here/seeded")
one() {
  id=$1; d=$(mktemp -d /tmp/huntXXXXXX); cp -a /repo "$d/repo"
  if ! git -C "$d/repo" apply "$here/seeded/$id/patch.diff"; then echo "$id: patch fails"; else
  own=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  props=$own; [ -n "$all" ] && props=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']])")
  hit=
$NC -repo "$d/repo" -prop "$(echo $props | tr ' ' ,)" -out "$d/ev" > "$d/o" 2>&1
  for p in $props; do grep -q "^VIOLATION property=$p" "$d/o" && hit="$hit $p"; done; grep -A1 "^$own:" "$d/o" | cut -c1-160 > "$d/own"
  case " $hit " in *" $own "*) s=CAUGHT;; *) s="missed";; esac
  echo "$s $id ($own)${all:+ by:$hit} $( [ $s = CAUGHT ] || cat $d/own | head -1)"; fi
  rm -rf "$d"
}
export -f one; export here NC all
printf '%s\n' "$@" | xargs -P 6 -I{} bash -c 'one {}'
