#!/bin/bash
# plant.sh ID PROPERTY "needs" "what it breaks": saves /repo's uncommitted change as a planted bug, with the demo read from stdin
B=/verif/seeded/$1; mkdir -p $B
git -C /repo diff > $B/patch.diff; [ -s $B/patch.diff ] || { echo "no change"; exit 1; }
cat > $B/demo.py
printf '#!/bin/bash\n# exit 0: the property holds\nD=$(cd "$(dirname "$0")" && pwd)\nexec timeout 240 /opt/venv/bin/python "$D/demo.py"\n' > $B/demo.sh
/usr/bin/python3 - "$1" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
git -C /repo checkout -q -- .
