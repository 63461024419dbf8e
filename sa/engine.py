"""Running a property: analyses, comparison with the specification, rules, evidence, report."""
import json, os, re, sys, time
import core, dfa, rules
from rules import Violation, head

SPEC = os.path.join(core.VERIF, 'spec')


def spec(name):
    f = os.path.join(SPEC, name + '.json')
    if not os.path.exists(f):
        return None
    with open(f) as fh:
        return json.load(fh)


# a call the interpreter has no model for is not evidence of a change of behaviour, unless it is one of those
# that exist to drop, reorder or rewrite what they are given
SUSPICIOUS = re.compile(r'(to_lowercase|to_uppercase|to_ascii_\w+|trim\w*|replace\w*|truncate|split_off|drain|retain|dedup\w*|reverse|\brev\b|sort\w*|swap\w*|rotate\w*|clear|make_ascii\w*|\btake\b|\bskip\b|step_by|take_while|skip_while|saturating_\w+|wrapping_\w+)$')


def opaque_names(rec):
    out = {}
    for o in rec.get('opaque', []):
        if ': ' in o:
            fn, call = o.rsplit(': ', 1)
            out.setdefault(call, set()).add(fn)
    return out


SIZE = re.compile(r"(Gt|Lt|Ge|Le|Eq|Ne)\((len\((text\(\w+\)|\[many\])\)|count),[1-9]\d*\)$|\w\w\(left,\d+\)$|((Gt|Le|Eq|Ne)\([^,()]*\.len,[1-9]\d*|(Lt|Ge)\([^,()]*\.len,([2-9]|[1-9]\d+))\)$")
LENGTH = re.compile(r'\b(Eq|Ne|Lt|Le|Gt|Ge)\(.*len(\b|$)')


def newly_lost(cur, sp):
    """the function now branches on values the analysis has no idea of, or calls what has no model"""
    a = {(t[0], t[2]) for t in cur.get('tops', [])} - {(t[0], t[2]) for t in sp.get('tops', [])}
    b = {c for c in set(opaque_names(cur)) - set(opaque_names(sp)) if not SUSPICIOUS.search(c)}
    return ['%s branches on %s' % x for x in sorted(a)] + sorted(b)


def compare(name, cur):
    """-> (status, diffs, stats); status: 'ok' | 'diff' | 'undecided: why'"""
    sp = spec(name)
    st = {'function': name}
    if sp is None:
        return 'undecided: no specification', [], st
    if 'error' in cur or 'dfa_error' in cur:
        return 'undecided: ' + str(cur.get('error') or cur.get('dfa_error'))[:200], [], st
    ab = dfa.Alphabet([cur, sp])
    if cur.get('kinds') and sp.get('kinds') and cur['kinds'] != sp['kinds']:
        # kinds are compared by name
        sp = dict(sp)
        remap(sp, cur['kinds'])
        ab = dfa.Alphabet([cur, sp])
    a, b = dfa.Dfa(sp, ab), dfa.Dfa(cur, ab)
    try:
        diffs, pairs, es, vague = dfa.compare(a, b)
    except dfa.TooLarge as e:
        return 'undecided: ' + str(e), [], st
    st.update(spec_states=sp['n'], code_states=cur['n'], product_pairs=pairs, product_edges=es, explored_states=cur['states'])
    new_top = {(t[0], t[2]) for t in cur.get('tops', [])} - {(t[0], t[2]) for t in sp.get('tops', [])}
    if not diffs:
        if vague:
            return 'undecided: it depends on something lost whether a decision is taken', [], st
        return 'undecided: %s branches on a value the analysis lost' % sorted(new_top)[0][0] if new_top else 'ok', [], st
    new_op = set(opaque_names(cur)) - set(opaque_names(sp))
    keep, und = [], []
    for d in diffs:
        # comparisons of text lengths only save work where they are made already; how says nothing about the outcome
        odd = any(LENGTH.search(l) for l in sp['labels']) and [l for l in [d.label] + d.found + d.expected + ['?' + f[1] for f in d.facts] if l.startswith('?') and LENGTH.search(l) and not SIZE.match(l.lstrip('?').rsplit('=', 1)[0])]
        if odd:
            und.append('%s: text lengths are compared in another way' % odd[0][:80])
            continue
        why = unlike(d, sp)
        if why:
            und.append(why)
            continue
        involved = [c for c in new_op if any(c in l for l in d.found + [d.label])]
        if involved and not any(SUSPICIOUS.search(c) for c in involved):
            und.append('%s uses %s, which has no model' % (d.label[:80], ', '.join(involved)))
            continue
        if new_top and any(re.search(r'[(\[ ]\?[),\]]', l) for l in d.found if not l.startswith('?')):
            und.append('%s holds a value the analysis lost' % [l for l in d.found if re.search(r'[(\[ ]\?[),\]]', l)][0][:80])
            continue
        if lost_value(d):
            und.append('%s holds a value the analysis lost' % lost_value(d)[:80])
            continue
        if new_top and d.only == 'code':
            und.append('branches on values the analysis lost: %s' % sorted(new_top)[0][0])
            continue
        keep.append(d)
    for d in keep:
        d.ab, d.ch = ab, b.ch
    if not keep:
        return 'undecided: ' + und[0], [], st
    return 'diff', keep, st


LOST = re.compile(r'(?<=[(\[ ])\?(?=[),\]])')


def lost_value(d):
    """what the code does, if it is what the specification does but for values that the analysis has lost"""
    ours, theirs = ([d.label], d.expected) if d.only == 'code' else (d.found, [d.label])
    for l in ours:
        if not l.startswith('?') and LOST.search(l):
            pat = re.compile('.*'.join(re.escape(x) for x in LOST.split(l)) + '$', re.S)
            if any(pat.match(t) for t in theirs):
                return l
    return None


def one_of(d, here):
    return {(k.lstrip('?'), v) for side, k, v in d.facts if side == 1} | {tuple(l[1:].rsplit('=', 1)) for l in here if l.startswith('?')}


def unlike(d, sp):
    """a decision of the code that has no like in the specification, so that nothing can be said about how the two depend on each other"""
    ours = [l[1:].rsplit('=', 1)[0] for l in ([d.label] if d.only == 'code' else []) + (d.found if d.only == 'spec' else []) if l.startswith('?')]
    ours += [k for side, k, _ in d.facts if side == 1]
    theirs = [k for side, k, _ in d.facts if side == 0] + [l[1:].rsplit('=', 1)[0] for l in (d.expected if d.only == 'code' else [d.label]) if l.startswith('?')]
    ks = {l[1:].rsplit('=', 1)[0] for l in sp['labels'] if l.startswith('?')}
    # a number read as one of another type and cut to size is not the same number; if its range is checked first, that is a decision of its own
    heads = lambda k: [re.sub(r'^[ui](\d+|size)::', 'int::', h) for h in dfa.HEADS.findall(k)]
    like = {h for k in theirs or ks for h in heads(k)}
    here, there = ([d.label], d.expected) if d.only == 'code' else (d.found, [d.label])
    if any(l.startswith('text +=') for l in here) and any('s[?' in l for l in there) and not any(l.startswith('text +=') for l in there):
        return 'a text is put together in another way'
    # how long a token is, or what it begins with, means nothing by itself: where the specification decides nothing that the code does not decide in the
    # same way, one decision more that makes a difference is no other form of something
    part = re.compile(r'str::(starts_with|ends_with|contains)\(text\(\w+\),".+"\)$')
    one = one_of(d, here)
    if not [f for f in d.facts if f[0] == 0] and not any(l.startswith('?') for l in there) and len(one) == 1:
        k, v = min(one)
        if SIZE.match(k) or part.match(k) and v == '1' and not any('PANIC' in l for l in here):
            return None
    for k in ours:
        if k in ks:
            continue
        # whether what is asked of the first or the last element settles what is asked of them all is only known where nothing is asked of the others
        one = re.match(r'(?:\w+\()*(.*?\.)\[(first|last)\]', k)
        if one and any(l.startswith('?') and one.group(1) + '[]' in l for l in here):
            return 'decides on %s' % k[:120]
        # how many there are, beyond what the analysis counts, depends on nothing else
        if re.match(r'\??(Gt|Lt|Ge|Le|Eq|Ne)\(len\(\[many\]\),([2-9]|\d\d+)\)$', k) and len({v for _, v in one_of(d, here) if _ == k.lstrip('?')}) == 1:
            continue
        # a quoted text may be empty or not, whatever else is known but what its characters are
        e = re.match(r'\??(\S*\.SingleQuoted\.0)\.is_empty\(\)$', k)
        if e:
            vs = {v for _, v in one_of(d, here) if _ == k.lstrip('?')}
            known = {(x, v) for _, x, v in d.facts} | {tuple(l[1:].rsplit('=', 1)) for l in here + there if l.startswith('?')}
            about = {v for x, v in known if e.group(1) in x and 'is_empty' not in x and x.lstrip('?').startswith('all(')}
            if len(vs) == 1 and (vs == {'0'} or '0' not in about) and not any('str(' in x and e.group(1) in x for x, _ in known):
                continue
        # a text that is compared without the blanks around it
        if re.match(r'\??(Eq|Ne)\((.*),str::trim(_end|_start)?\(\2\)\)$', k):
            continue
        if '~' in k or '?+' in k or '[]' in k and 's[]' in k:
            return 'decides on %s' % k[:120]
        for h in heads(k):
            if h not in like and not SUSPICIOUS.search(h):
                return 'decides on %s' % k[:120]
    return None


def remap(sp, kinds):
    old = sp['kinds']
    tr = [kinds.index(k) if k in kinds else None for k in old]

    def m(x):
        v = int(x, 16)
        if v >> 64 == 0 or True:
            o = v & ~((1 << 63) - 1)
            for i, t in enumerate(tr):
                if t is not None and v >> i & 1:
                    o |= 1 << t
            # kinds that the specification does not know behave as an unconstrained one only when all are allowed
            if all(v >> i & 1 for i in range(len(old))):
                o |= (1 << len(kinds)) - 1
            return '%x' % o
    sp['edges'] = [[e[0], e[1], e[2], [[m(x) for x in c] for c in e[3]]] + e[4:] for e in sp['edges']]
    sp['texts'] = [[tr[k], t] for k, t in sp['texts'] if tr[k] is not None]
    sp['kinds'] = kinds


def cls(label):
    if label.startswith('ret Err(') or label.startswith('ret Some(Err('):
        return 'error'
    if label.startswith('ret '):
        return 'value'
    if label.startswith('B.') or label.startswith('push ') or label.startswith('text +='):
        return 'data'
    if label.startswith('PANIC'):
        return 'panic'
    return 'flow'


def elsewhere(d):
    """the same call, but with another position for the errors it may report"""
    at = re.compile(r'pos@\w+')
    return bool(at.search(d.label)) and any(at.search(l) and at.sub('', l) == at.sub('', d.label) and l != d.label for l in d.expected + d.found)


def describe(name, d):
    def steps():
        return [dfa.show_step(d.ab, l, b, d.ch) for l, b in d.path]
    it = dfa.show_step(d.ab, d.label, d.box, d.ch)
    if d.only == 'code':
        t = '%s: the code does `%s` where the specification has %s' % (name, it, ' or '.join('`%s`' % x[:200] for x in d.expected[:4]) or 'nothing')
    else:
        t = '%s: the code does not do `%s`' % (name, it) + (', but %s' % ' or '.join('`%s`' % x[:200] for x in d.found[:4]) if d.found else '')
    return Violation('%s:%s:%s' % (name, d.only, d.label[:160]), t, d.site, steps())


def without_assertions(r, check):
    """the same check on the crate as it is built without debug assertions, where the source tells the two apart"""
    if r.viol or not core.debugging():
        return
    core.RELEASE[0] = True
    try:
        s = Run(r.pid, r.tier)
        check(s)
        r.viol += s.viol
        r.undecided += ['without debug assertions: ' + u for u in s.undecided if u not in r.undecided]
    finally:
        core.RELEASE[0] = False


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.viol, self.undecided, self.cov = [], [], {}
        self.assumptions = []
        self.level = 'other'
        self.expl = ''

    def automata(self, names, recs=None, classes=None, labels=None):
        """compares the productions with their specification; classes: which differences count"""
        recs = recs or core.records(names)
        per = []
        for n in names:
            try:
                with core.limited(90):
                    st, diffs, info = compare(n, recs[n])
            except core.Undecided as e:
                st, diffs, info = 'undecided: %s' % e, [], {'function': n}
            if st.startswith('undecided'):
                self.undecided.append('%s: %s' % (n, st[11:]))
                info['result'] = st
            else:
                sel = []
                for d in diffs:
                    ls = [d.label] + (d.expected if d.only == 'code' else d.found)
                    if classes and not any(cls(l) in classes for l in ([d.label] if 'strict' in classes else ls)) and not ('error' in classes and elsewhere(d)):
                        continue
                    if labels and not any(re.search(labels, l) for l in ls):
                        continue
                    sel.append(d)
                info['result'] = 'differs' if sel else ('equal' if not diffs else 'differs elsewhere')
                # the specification's side first: it says what is missing
                sel.sort(key=lambda d: (len(d.path), d.only != 'code'))
                seen = set()
                for d in sel[:6]:
                    v = describe(n, d)
                    if v.key not in seen:
                        seen.add(v.key)
                        self.viol.append(v)
            per.append(info)
        self.cov.setdefault('functions', []).extend(per)
        self.cov['functions_compared'] = sum(1 for p in self.cov['functions'] if p.get('result') in ('equal', 'differs', 'differs elsewhere'))
        self.cov['product_pairs'] = sum(p.get('product_pairs', 0) for p in self.cov['functions'])
        self.cov['explored_states'] = sum(p.get('explored_states', 0) for p in self.cov['functions'])
        return recs

    def finish(self):
        known = known_findings(self.pid)
        out = os.path.join(core.VERIF, 'evidence')
        os.makedirs(out, exist_ok=True)
        fresh = [v for v in self.viol if v.key not in known]
        for v in self.viol:
            if v.key in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, v.text[:300]))
        cov = {'explanation': self.expl}
        cov.update(self.cov)
        cov['undecided'] = self.undecided
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(fresh)}
        with open(os.path.join(out, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for u in self.undecided:
            print('undecided: ' + u[:300])
        if fresh:
            rep = os.path.join(out, self.pid + '.violation.txt')
            with open(rep, 'w') as f:
                for v in fresh:
                    f.write('%s\n  at %s\n  key %s\n' % (v.text, v.site, v.key))
                    for s in v.trace:
                        f.write('    %s\n' % s)
                    f.write('\n')
            for v in fresh[:8]:
                print('%s%s' % (v.text[:600], ' (%s)' % v.site if v.site else ''))
                for s in v.trace[-12:]:
                    print('    ' + s[:200])
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        print('%s: holds on everything analysed (%.1f s)' % (self.pid, time.time() - self.t0))
        return 0


def known_findings(pid):
    f = os.path.join(core.VERIF, 'known-findings.txt')
    out = set()
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known: property=(\S+) key=(.*)$', line.rstrip('\n'))
            if m and m[1] == pid:
                out.add(m[2])
    return out
