"""Equality and copies of the crate's types against their definitions, and the wrappers around whole commands and words."""
import re
import core, rules
from rules import Violation

WRAPPERS = {'cmd': 'TopLevelCommand', 'acmd': 'AtomicTopLevelCommand', 'wrd': 'TopLevelWord', 'awrd': 'AtomicTopLevelWord'}


def expected(owner, op):
    return {'deref': {'self.0'}, 'deref_mut': {'self.0'}, 'from': {'%s{0: self}' % WRAPPERS[owner]}, 'eq': {'Eq(arg1,self.0)', 'Eq(self.0,arg1)'}}[op]


def walk(rec):
    """all paths: (facts, result, panic, site); a fact is (text, value)"""
    out = {}
    for f, t, l, c, site in rules.edges(rec):
        out.setdefault(f, []).append((l, t, site))
    stack = [(0, (), '')]
    n = 0
    while stack:
        s, facts, site = stack.pop()
        n += 1
        if n > 200000 or len(facts) > 300:
            raise core.Undecided('too many paths')
        for l, t, w in out.get(s, []):
            if l.startswith('ret '):
                yield facts, l[4:].split(' | ')[0], None, w or site
            elif l.startswith('PANIC'):
                yield facts, None, l, w or site
            elif l.startswith('?'):
                k, v = l[1:].rsplit('=', 1)
                stack.append((t, facts + ((k, v),), w or site))
            else:
                stack.append((t, facts + ((l, ''),), w or site))


def pair(text):
    m = re.match(r'(Eq|Ne)\(([\w.()]+),([\w.()]+)\)$', text)
    if not m:
        return None
    a, b = sorted(m.group(2, 3), reverse=True)
    return m.group(1) == 'Eq', a, b


def fields(ty, variant, who):
    for name, fs in ty['variants']:
        if name == variant:
            return ['%s.%s' % (who, f) if not ty['enum'] else '%s.%s.%s' % (who, name, f) for f in fs]
    return None


def same(ty, rec):
    """-> [(violation text, site)], [undecided]"""
    bad, und = [], []
    n = 0
    for facts, ret, panic, site in walk(rec):
        n += 1
        if panic:
            bad.append(('comparing two values of %s panics: %s' % (ty['type'], panic[:80]), site))
            continue
        val, eqs, odd = {}, {}, []
        for k, v in facts:
            p = pair(k)
            if k in ('self', 'arg1'):
                val[k] = v
            elif p and v in '01':
                if eqs.setdefault(p[1:], (v == '1') == p[0]) != ((v == '1') == p[0]):
                    eqs['impossible'] = True
            else:
                odd.append('%s=%s' % (k, v))
        disc = eqs.pop(('disc(self)', 'disc(arg1)'), None)
        if 'impossible' in eqs:
            continue
        if odd:
            und.append('comparing %s depends on %s' % (ty['type'], odd[0][:80]))
            continue
        a, b = val.get('self'), val.get('arg1')
        if disc and a and not b:
            b = a
        if disc and b and not a:
            a = b
        known = disc if disc is not None else (a == b if a and b else True if not ty['enum'] else None)
        if a and b and (a == b) != known:
            continue
        if known and not a and ty['enum'] and all(not fs for _, fs in ty['variants']):
            want, rest = True, []
        elif known is False:
            want, rest = False, []
        elif known is None or ty['enum'] and not a:
            # nothing may follow from that yet
            unit = all(not fs for _, fs in ty['variants'])
            p = pair(ret)
            if unit and p == (True, 'disc(self)', 'disc(arg1)') or p == (True, 'self', 'arg1'):
                continue
            bad.append(('comparing two values of %s gives %s before their kinds are known' % (ty['type'], ret[:60]), site))
            continue
        else:
            fs = fields(ty, a or ty['variants'][0][0], 'self')
            if fs is None:
                und.append('a kind %s of %s that is not known' % (a, ty['type']))
                continue
            rest = []
            want = True
            for f in fs:
                e = eqs.get((f, 'arg1' + f[4:]))
                if e is None:
                    rest.append(f)
                elif not e:
                    want = False
            if eqs.get(('self', 'arg1')) is not None:
                want, rest = eqs[('self', 'arg1')], []
        what = '%s%s' % (ty['type'], '::' + a if a and a == b else '')
        p = pair(ret)
        if want is False:
            ok = ret == '0'
        elif not rest:
            ok = ret == '1' or p == (True, 'disc(self)', 'disc(arg1)') and disc is None
        else:
            ok = len(rest) == 1 and p == (True, rest[0], 'arg1' + rest[0][4:])
        if not ok:
            if ret not in ('0', '1') and p is None:
                und.append('comparing two values of %s gives %s' % (what, ret[:80]))
            elif want is False:
                bad.append(('two values of %s that differ compare as %s' % (what, 'equal' if ret == '1' else ret), site))
            elif ret == '0':
                bad.append(('two values of %s may compare as different although nothing differs so far' % what, site))
            else:
                bad.append(('two values of %s compare as %s without %s having been compared' % (what, 'equal' if ret == '1' else ret, ', '.join(r[5:] for r in rest if not p or r not in p)), site))
    return n, bad, und


def copy(ty, rec):
    bad, und = [], []
    n = 0
    for facts, ret, panic, site in walk(rec):
        n += 1
        if panic:
            bad.append(('copying a value of %s panics: %s' % (ty['type'], panic[:80]), site))
            continue
        val = dict(facts)
        if ret == 'self':
            continue
        if not ty['enum']:
            name, fs = ty['variants'][0]
            want = {'%s{%s}' % (name, ', '.join('%s: self.%s' % (f, f) for f in fs)), name if not fs else None}
        else:
            v = val.get('self')
            fs = fields(ty, v, 'self')
            if fs is None:
                und.append('copying %s gives %s' % (ty['type'], ret[:80]))
                continue
            want = {v if not fs else '%s(%s)' % (v, ', '.join(fs))}
        if ret not in want:
            if '?' in ret or '(self)' in ret or any(k not in ('self',) for k, _ in facts):
                und.append('copying %s gives %s' % (ty['type'], ret[:80]))
            else:
                bad.append(('the copy of a value of %s is %s' % (ty['type'], ret[:120]), site))
    return n, bad, und


def run(r):
    types = core.records(['types'])['types']
    if 'error' in types:
        r.undecided.append(types['error'][:300])
        return
    todo = []
    for t in types['types']:
        for i, _ in t['impls']:
            todo.append(('same.' if i == 'PartialEq' else 'copy.') + t['type'])
    names = [t['type'] for t in types['types']]
    wrap = ['%s.%s' % (o, op) for o in WRAPPERS for op in ('deref', 'deref_mut', 'from', 'eq')]
    recs = core.records(todo + wrap)
    per = []
    for t in types['types']:
        for i, derived in t['impls']:
            op = 'same' if i == 'PartialEq' else 'copy'
            name = '%s.%s' % (op, t['type'])
            rec = recs[name]
            if 'edges' not in rec or names.count(t['type']) > 1:
                r.undecided.append('%s: %s' % (name, (rec.get('error') or 'several types of this name')[:160]))
                continue
            if rec.get('opaque'):
                r.undecided.append('%s calls %s, which has no model' % (name, rec['opaque'][0]))
            try:
                with core.limited(60):
                    n, bad, und = (same if op == 'same' else copy)(t, rec)
            except core.Undecided as e:
                r.undecided.append('%s: %s' % (name, e))
                continue
            per.append({'function': '%s for %s' % (i, t['path']), 'derived': derived, 'paths': n, 'explored_states': rec.get('states', 0), 'result': 'differs' if bad else 'undecided' if und else 'structural'})
            seen = set()
            for text, site in bad[:6]:
                if text not in seen and not rec.get('opaque'):
                    r.viol.append(Violation('%s:%s' % (name, text[:140]), text, site or t['site'], []))
                seen.add(text)
            r.undecided += ['%s: %s' % (name, u) for u in sorted(set(und))[:3]]
    for name in wrap:
        rec = recs[name]
        if 'edges' not in rec:
            r.undecided.append('%s: %s' % (name, (rec.get('error') or '?')[:160]))
            continue
        o, op = name.split('.')
        bad = []
        for facts, ret, panic, site in walk(rec):
            if panic or ret not in expected(o, op):
                if facts or rec.get('opaque'):
                    r.undecided.append('%s: gives %s' % (name, (ret or panic)[:100]))
                else:
                    bad.append(('%s of %s gives %s' % (op, WRAPPERS[o], (ret or panic)[:100]), site))
        for text, site in bad[:3]:
            r.viol.append(Violation('%s:%s' % (name, text[:140]), text, site, []))
        per.append({'function': '%s of %s' % (op, WRAPPERS[o]), 'explored_states': rec.get('states', 0), 'result': 'differs' if bad else 'equal'})
    r.cov['functions'] = per
    r.cov['explored_states'] = sum(p['explored_states'] for p in per)
