import json,sys
for f in sys.argv[1:]:
    r=json.load(open(f)); s=r['scenario']; m=s['mesh']
    print(f, {k:m[k] for k in ('fam','dim','lo','hi','n','x') if k in m}, len(m.get('cn',[])), 'cells', s['opt'], [o['op'] for o in s['ops']], r['clauses'][:3], r['trace']['end'])
