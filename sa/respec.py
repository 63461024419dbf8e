#!/usr/bin/env python3
"""Writes the specification automata of the named functions from the current tree (a development tool: the result is
reviewed, see show.py, and committed; no check runs this)."""
import json, os, sys
import core, engine, checks, dfa

names = sys.argv[1:] or checks.ALL_RECORDS
os.makedirs(engine.SPEC, exist_ok=True)
recs = core.records(names)
for n in names:
    r = recs[n]
    if 'error' in r or 'dfa_error' in r:
        print(n, r.get('error') or r.get('dfa_error'))
        continue
    s = {k: r[k] for k in ('name', 'chars', 'kinds', 'texts', 'n', 'final', 'labels') if k in r}
    s['asserts'] = [[a, b, ''] for a, b, _ in r['asserts']]
    s['tops'] = [[a, '', c] for a, _, c in r['tops']]
    s['opaque'] = r['opaque']
    s['lost'] = [[a, ''] for a in sorted({a for a, _ in r.get('lost', [])})]
    head = json.dumps(s, ensure_ascii=False)[:-1]
    with open(os.path.join(engine.SPEC, n + '.json'), 'w') as f:
        f.write(head.replace(', "labels": [', ',\n"labels": [').replace('", "', '",\n"') + ',\n"edges": [\n')
        es = []
        for e in r['edges']:
            ch = bool(r.get('chars')) or r['labels'][e[2]].startswith('chr')
            full = (1 << 133) - 1 if ch else ((1 << len(r['kinds'])) - 1) | 1 << 63 | ((1 << len(r['texts'])) - 1) << 64
            bs = [tuple(int(m, 16) & full for m in c) for c in e[3]]
            bs = dfa.merge([b for b in bs if all(b)], full)
            if bs:
                es.append([e[0], e[1], e[2], [['%x' % m for m in b] for b in bs]])
        f.write(',\n'.join(json.dumps(e, separators=(',', ':')) for e in es))
        f.write('\n]}\n')
    print(n, r['n'], len(r['edges']))
