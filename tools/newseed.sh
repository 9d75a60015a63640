#!/bin/bash
# newseed.sh ID PROPERTY "needs" "what it breaks" < main.rs: a seed for the cache modules.
d=/verif/seeded/$1; mkdir -p $d
cp /verif/tools/kit/{kit.sh,demo.sh,proto_build.rs.txt} $d/; cp /verif/tools/kit/util.rs.txt $d/util.rs
cp /verif/harness/Cargo.lock $d/Cargo.lock.txt
cat > $d/main.rs
python3 - "$@" <<'PY'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open('/verif/seeded/%s/meta.json' % sys.argv[1], 'w'), indent=1)
PY
