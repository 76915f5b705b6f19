#!/bin/bash
# trybugs.sh "ID ..." ARGS : several planted bugs, two at a time; notes what caught them.
IDS="$1"; shift
cd "$(dirname "$0")/.." || exit 2
for i in $IDS; do echo "$i"; done | xargs -P "${P:-2}" -I{} sh -c "tools/trybug.sh seeded/{} $* > /tmp/trybug-{}.log 2>&1"
for i in $IDS; do
    cat "/tmp/trybug-$i.log"
    python3 - "$i" <<'P'
import json, os, re, sys
bid = sys.argv[1]
path = "tools/caught.json"
data = json.load(open(path)) if os.path.isfile(path) else {}
got = re.findall(r"check (\w+) exit=1 .*VIOLATION", open(f"/tmp/trybug-{bid}.log").read())
data[bid] = ", ".join(got) or "nothing"
json.dump(data, open(path, "w"), indent=1, sort_keys=True)
P
    rm -f "/tmp/trybug-$i.log"
done
