#!/usr/bin/env python3
"""replay.py evidence/replay/<id>.json : run the recorded counterexamples on the real code, natively."""
import json, os, sys, tempfile, shutil
import check
j = json.load(open(sys.argv[1]))
scratch = tempfile.mkdtemp(prefix='lsx-replay-')
bad = 0
try:
    check.copy_tree(scratch)
    crates = sorted({v['crate'] for v in j['violations']})
    check.prepare(scratch, crates)
    bins = {}
    for v in j['violations']:
        prof = 'dev' if v['profile'].startswith('dev') else 'shipped'
        k = (v['crate'], prof)
        if k not in bins:
            bins[k] = check.build_native(scratch, *k)
        kind, aid, obs, cov, err = check.native(bins[k], v['entry'], v['input'], v['params'])
        print(v['entry'], v['params'], v['input'], '->', kind, aid if aid is not None else '', v.get('meaning', ''))
        if err.strip():
            print('   ', err.strip()[-600:])
        bad += kind not in ('DONE', 'ASSUME')
finally:
    shutil.rmtree(scratch, ignore_errors=True)
print('%d of %d reproduce' % (bad, len(j['violations'])))
sys.exit(1 if bad else 0)
