#!/bin/bash
# mut.sh <checker crate> <PID> <file under /repo> <sed expression>...: run the checker on mutants, in a private copy of
# /repo (bound over /repo in a mount namespace of its own)
if [ -z "$MUT_NS" ]; then
  mkdir -p /tmp/mutrepo; cp -a --update=all -T /repo /tmp/mutrepo 2>/dev/null || { rm -rf /tmp/mutrepo; cp -a /repo /tmp/mutrepo; }
  (cd /tmp/mutrepo && git checkout -q -- .)
  exec env MUT_NS=1 unshare -Urm bash -c 'mount --bind /tmp/mutrepo /repo && exec bash "$0" "$@"' "$0" "$@"
fi
c=$1; p=$2; f=/repo/$3; shift 3
for e in "$@"; do
  cp $f /tmp/mut.orig; sed -i "$e" $f
  if cmp -s $f /tmp/mut.orig; then echo "NO CHANGE: $e"; else echo "$e => $(N=3 W=150 bash /verif/tools/px.sh $c $p 2>&1 | grep -v "^VIOL" | tail -1)"; fi
  cp /tmp/mut.orig $f
done
