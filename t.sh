#!/bin/bash
# t.sh CRATE PROP [tier]: development helper
export CARGO_TARGET_DIR=/verif/target PROJ_NETWORK=OFF
cd /verif/mc/$1 && cargo build --offline --quiet 2>&1 | grep -E "^(error|warning: unus)" -A12 | head -${LINES_MAX:-80}
rm -f /tmp/o.json; [ -n "$2" ] && for p in ${2//,/ }; do /verif/target/debug/mc-$1 $p --tier ${3:-quick} --out /tmp/o.json 2>/tmp/err.txt || tail -5 /tmp/err.txt; python3 -c "
import json;d=json.load(open('/tmp/o.json'));print('$p',d['states'],d['transitions'],d['traces'],round(d['wall_s'],1),'FAILS',len(d['failures']), 'inc',len(d['incomplete']));
seen=set()
for f in d['failures']:
    k=(f['shard'],f['msg'][:60])
    if k in seen: continue
    seen.add(k)
    if len(seen)<int(__import__('os').environ.get('NF',"12")): print('  ',f['shard'],f['index'],f['desc'][:300],'\n      ',f['msg'][:400])
for s in sorted(d['shards'],key=lambda s:-s['secs'])[:2]: print('    slow',s['shard'],s['secs'],s['traces'])
"; done
