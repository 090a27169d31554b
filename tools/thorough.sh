#!/bin/bash
# thorough.sh [ids]: every thorough check, with its time.
cd "$(dirname "$0")/.."
for i in ${@:-$(python3 -c 'import json;[print(c["property"]) for c in json.load(open("MANIFEST.json"))["checks"]]')}; do
    s=$SECONDS
    timeout 3600 ./check.sh $i thorough >/tmp/thorough-$i.log 2>&1
    echo "$i rc $? $((SECONDS - s)) s"
done
