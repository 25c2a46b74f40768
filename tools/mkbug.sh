#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "breaks" < main.rs, with the change in /tmp/wt/ID (a copy of /repo): writes /verif/seeded/ID and tries it.
# Usage: prepare with `mkbug.sh new ID`, edit /tmp/wt/ID, then `mkbug.sh ID PROP needs breaks main.rs`
if [ "$1" = new ]; then
    mkdir -p /tmp/wt; [ -d "/tmp/wt/$2" ] && find "/tmp/wt/$2" -depth -delete; git clone -q /repo "/tmp/wt/$2"; cp /repo/Cargo.lock "/tmp/wt/$2/"; exit
fi
id="$1"; s="/verif/seeded/$id"; mkdir -p "$s"
git -C "/tmp/wt/$id" diff > "$s/patch.diff"
[ -s "$s/patch.diff" ] || { echo "no change"; exit 1; }
cat /verif/tools/demo/prelude.rs "$5" > "$s/main.rs"; cp /verif/tools/demo/demo.sh "$s/demo.sh"; chmod +x "$s/demo.sh"
python3 - "$s/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
"/verif/tools/trybug.sh" "$id"
