"""tools/ev.py PROP...: short view of the evidence"""
import json, sys
for p in sys.argv[1:]:
    d = json.load(open(f'/verif/evidence/{p}.json'))
    c = d['coverage']
    print(p, d['wall_s'], 's')
    for k, v in c['sub_checks'].items():
        print('  ', k, v)
        print('      ', c['labels'].get(k, {}))
