#!/bin/bash
# newrtseed.sh ID PROPERTY "needs" "what it breaks" < main.rs: a seed for the runtime and the tablet store.
d=/verif/seeded/$1; mkdir -p $d
cp /verif/tools/rtkit/{kit.sh,demo.sh} $d/
tar -C /verif/harness_rt --owner=0 --group=0 --sort=name --mtime=2026-01-01 -czf $d/stubs.tgz Cargo.toml Cargo.lock raft raft_proto oak_proto_rust oak_time rand tcp_proto tcp_runtime tcp_tablet_store tcp_tablet_cache tcp_atomic_counter
cat > $d/main.rs
grep -q "mod session" $d/main.rs && cp /verif/harness_rt/rt_driver/src/session.rs $d/
python3 - "$@" <<'PY'
import json, sys
json.dump({'property': sys.argv[2], 'needs': sys.argv[3], 'what_it_breaks': sys.argv[4]}, open('/verif/seeded/%s/meta.json' % sys.argv[1], 'w'), indent=1)
PY
