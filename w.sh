#!/bin/bash
# developer helper: w.sh ENTRY ARGS [engine options]
e=$1; a=$2; shift 2
/verif/target/engine/release/wsym /verif/target/wasm/wasm32-unknown-unknown/sym/harness.wasm --entry $e --args "$a" --threads 8 --time 300 "$@" > /tmp/w.json; python3 - <<'P'
import json
d=json.load(open('/tmp/w.json'))
for k in ('functions','samples'): d.pop(k,None)
fs=d.pop('fork_sites',None)
v=d.get('violations') or []
for x in v: x['stack']=x['stack'][:14]
d['violations']=v[:1]
print(json.dumps(d,indent=None)[:3500])
for f in fs or []: print(f)
P
