"""Automata over observable events: normal form, comparison, rendering."""
import re
from collections import deque

STAR = re.compile(r'\[([a-z]+)\d*\*?\+\]')
HEADS = re.compile(r'([\w:]+)\(')

CH = [chr(i) for i in range(128)]
CHN = {128: 'end of input', 129: 'other whitespace', 130: 'other letter', 131: 'other digit', 132: 'other character'}
EOF = 63


class Alphabet:
    """atoms of the look-ahead masks: token kinds, end of input, kinds with one particular text"""

    def __init__(self, recs):
        self.texts = []
        for r in recs:
            for k, t in r.get('texts', []):
                if (k, t) not in self.texts:
                    self.texts.append((k, t))
        self.kinds = next((r['kinds'] for r in recs if r.get('kinds')), [])
        self.tok_all = (1 << len(self.kinds)) - 1 | 1 << EOF
        for i in range(len(self.texts)):
            self.tok_all |= 1 << (64 + i)
        self.ch_all = (1 << 133) - 1

    def mask(self, rec, m, ch):
        if ch:
            return m & self.ch_all
        own = [(k, t) for k, t in rec.get('texts', [])]
        out = m & ((1 << 64) - 1)
        for i, kt in enumerate(self.texts):
            if kt in own:
                if m >> (64 + own.index(kt)) & 1:
                    out |= 1 << (64 + i)
            elif m >> kt[0] & 1:
                out |= 1 << (64 + i)
        return out & self.tok_all

    def show(self, m, ch):
        if ch:
            if m == self.ch_all:
                return 'any'
            n = bin(m).count('1')
            if n > 66:
                return 'not{' + self.show(self.ch_all & ~m, ch) + '}'
            return ' '.join(repr(CH[i]) if i < 128 else CHN[i] for i in range(133) if m >> i & 1)
        if m == self.tok_all:
            return 'any'
        if bin(m).count('1') > bin(self.tok_all).count('1') // 2:
            return 'not{' + self.show(self.tok_all & ~m, ch) + '}'
        out = []
        for i, k in enumerate(self.kinds):
            tx = [j for j, (kk, _) in enumerate(self.texts) if kk == i]
            on = [j for j in tx if m >> (64 + j) & 1]
            if m >> i & 1:
                off = [j for j in tx if j not in on]
                out.append(k + ('(except %s)' % ','.join(repr(self.texts[j][1]) for j in off) if off else ''))
            else:
                out += ['%s(%s)' % (k, repr(self.texts[j][1])) for j in on]
        if m >> EOF & 1:
            out.append('end of input')
        return '|'.join(out)


def merge(boxes, full):
    """the same set of look-aheads with fewer boxes"""
    boxes = set(boxes)
    while True:
        n = len(boxes)
        width = max((len(b) for b in boxes), default=0)
        for i in range(width - 1, -1, -1):
            g = {}
            keep = set()
            for b in boxes:
                if len(b) <= i:
                    keep.add(b)
                else:
                    k = b[:i], b[i + 1:]
                    g[k] = g.get(k, 0) | b[i]
            for (a, z), m in g.items():
                b = a + (m,) + z
                while b and b[-1] == full:
                    b = b[:-1]
                keep.add(b)
            boxes = keep
        if len(boxes) == n:
            return sorted(boxes)


class Dfa:
    def __init__(self, rec, ab, ch=False):
        self.rec, self.ab = rec, ab
        self.ch = ch or bool(rec.get('chars'))
        self.n, self.final = rec['n'], rec['final']
        self.out = [dict() for _ in range(self.n)]  # state -> label -> [(box, to, site)]
        memo = {}
        acc = {}
        sites = rec.get('sites')
        for e in rec['edges']:
            f, t, l, cells = e[:4]
            site = sites[e[4]] if sites and len(e) > 4 else ''
            lab = STAR.sub(r'[\1+]', rec['labels'][l])
            c = self.ch or lab.startswith('chr')
            full = ab.ch_all if c else ab.tok_all
            lst = acc.setdefault((f, lab, t, c), [site])
            for cell in cells:
                box = []
                for m in cell:
                    v = memo.get((m, c))
                    if v is None:
                        v = memo[m, c] = ab.mask(rec, int(m, 16), c)
                    box.append(v)
                eof = 1 << 128 if c else 1 << EOF
                for i, v in enumerate(box):
                    if v == eof:
                        box = box[:i + 1]
                        break
                if not all(box):
                    continue
                while box and box[-1] == full:
                    box.pop()
                lst.append(tuple(box))
        for (f, lab, t, c), lst in acc.items():
            full = ab.ch_all if c else ab.tok_all
            self.out[f].setdefault(lab, []).extend((b, t, lst[0]) for b in merge(lst[1:], full))
        self.collapse()

    def collapse(self):
        """forgets decisions that make no difference"""
        while True:
            rep = {}
            for s in range(self.n):
                o = self.out[s]
                if not o or s == self.final:
                    continue
                labs = list(o)
                if not all(l.startswith('?') for l in labs):
                    continue
                if len({l.rsplit('=', 1)[0] for l in labs}) != 1 or len(labs) < 2:
                    continue
                tos = {t for l in labs for _, t, _ in o[l]}
                if len(tos) == 1 and s not in tos:
                    rep[s] = tos.pop()
            if not rep:
                return

            def to(s):
                seen = set()
                while s in rep and s not in seen:
                    seen.add(s)
                    s = rep[s]
                return s
            for s in range(self.n):
                for l in self.out[s]:
                    self.out[s][l] = [(b, to(t), x) for b, t, x in self.out[s][l]]
            if 0 in rep:
                z = to(0)
                self.out[0] = self.out[z]
                rep.pop(0)
            for s in rep:
                self.out[s] = {}
            self.minimise()

    def minimise(self):
        cls = [1 if s == self.final else 0 for s in range(self.n)]
        k = 0
        while True:
            ix = {}
            nxt = []
            for s in range(self.n):
                sig = (cls[s], tuple(sorted((l, tuple(sorted((b, cls[t]) for b, t, _ in v))) for l, v in self.out[s].items())))
                nxt.append(ix.setdefault(sig, len(ix)))
            cls = nxt
            if len(ix) == k:
                break
            k = len(ix)
        first = {}
        for s in range(self.n):
            first.setdefault(cls[s], s)
        for s in range(self.n):
            for l in self.out[s]:
                self.out[s][l] = [(b, first[cls[t]], x) for b, t, x in self.out[s][l]]
        if self.final is not None:
            self.final = first[cls[self.final]]

    def reachable(self):
        seen, st = {0}, [0]
        while st:
            s = st.pop()
            for v in self.out[s].values():
                for _, t, _ in v:
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
        return seen


def box_and(a, b, full):
    n = max(len(a), len(b))
    out = []
    for i in range(n):
        x = (a[i] if i < len(a) else full) & (b[i] if i < len(b) else full)
        if not x:
            return None
        out.append(x)
    return tuple(out)


def box_sub(a, b, full):
    """a minus b, as disjoint boxes"""
    if box_and(a, b, full) is None:
        return [a]
    out = []
    pre = []
    for i in range(len(b)):
        x = a[i] if i < len(a) else full
        r = x & ~b[i]
        if r:
            out.append(tuple(pre) + (r,) + tuple(a[i + 1:]))
        pre.append(x & b[i])
    return out


class Diff:
    def __init__(self, path, only, label, box, site, expected, found, facts=()):
        self.path, self.only, self.label, self.box, self.site = path, only, label, box, site
        self.expected, self.found = expected, found
        self.facts = facts


class TooLarge(Exception):
    pass


def decision(lab):
    return lab[0] == '?'


def volatile(key):
    """does the decision concern what is next in the input, rather than a value already obtained?"""
    return 'peek' in key or 'tok' in key


def later(facts):
    """what remains of the decisions when the input moves on: of those on what was next, only their kind"""
    out = []
    for side, k, v in facts:
        if volatile(k):
            if '(' not in k:
                continue
            k, v = '!%s' % ''.join(sorted({h + '(' for h in HEADS.findall(k)} | ({'len'} if re.search(r'len\b', k) else set()))), ''
        if (side, k, v) not in out:
            out.append((side, k, v))
    return tuple(out)


def compare(spec, cur, limit=40, most=400000):
    """differences between two deterministic automata: list of Diff (only: 'spec' or 'code').  A decision only one of the two takes is followed for
    all its outcomes while the other stays where it is: it makes a difference only if something else then does."""
    ab = spec.ab
    full = ab.ch_all if (spec.ch or cur.ch) else ab.tok_all
    start = (0, 0, (), ())
    par = {start: None}
    q = deque([start])
    diffs = []
    edges = 0
    vague = False

    def clip(lst, look, fl):
        if not look:
            return lst
        out = []
        for b, t, x in lst:
            i = box_and(b, look, fl)
            if i is not None:
                out.append((i, t, x))
        return out

    while q:
        p = q.popleft()
        g, c, look, facts = p
        if len(par) > most:
            raise TooLarge('too many combinations of states')
        og, oc = spec.out[g], cur.out[c]
        known = {k: v for _, k, v in facts}

        def push(k, lab, box):
            if k not in par:
                par[k] = (p, lab, box)
                q.append(k)

        def trace():
            out, x = [], p
            while par[x] is not None:
                x, lab, box = par[x]
                out.append((lab, box))
            return out[::-1]
        # a decision that is already known is followed on its own side only
        moved = []
        drop = ([], [])
        for side, o in ((0, og), (1, oc)):
            for lab, lst in o.items():
                if decision(lab) and lab.rsplit('=', 1)[0] in known:
                    drop[side].append(lab)
                    if lab.rsplit('=', 1)[1] == known[lab.rsplit('=', 1)[0]]:
                        for bx, t, x in clip(lst, look, full):
                            moved.append((side, lab, bx, t))
        for side, lab, bx, t in moved:
            push((t, c, bx, facts) if side == 0 else (g, t, bx, facts), lab, bx)
        silent = [m[2] for m in moved]
        rem = {0: [], 1: []}
        for lab in sorted(set(og) | set(oc)):
            fl = ab.ch_all if lab.startswith('chr') else full
            a = clip(og.get(lab, []), look, fl) if lab not in drop[0] else []
            b = clip(oc.get(lab, []), look, fl) if lab not in drop[1] else []
            for ba, ta, sa in a:
                rest = [ba]
                for bb, tb, sb in b:
                    i = box_and(ba, bb, fl)
                    if i is None:
                        continue
                    edges += 1
                    rest = [y for x in rest for y in box_sub(x, bb, fl)]
                    if decision(lab):
                        push((ta, tb, i, facts), lab, i)
                    else:
                        # a method of the builder takes nothing from the input
                        push((ta, tb, i if lab.startswith('B.') else (), facts if lab.startswith('B.') else later(facts)), lab, i)
                for r in rest:
                    rem[0].append((lab, r, ta, sa, fl))
            for bb, tb, sb in b:
                rest = [bb]
                for ba, ta, sa in a:
                    rest = [y for x in rest for y in box_sub(x, ba, fl)]
                for r in rest:
                    rem[1].append((lab, r, tb, sb, fl))
        # a decision that only one side takes
        for side in (0, 1):
            keep = []
            before = list(silent)
            for lab, r, t, x, fl in rem[side]:
                if not decision(lab):
                    keep.append((lab, r, t, x, fl))
                    continue
                k, v = lab.rsplit('=', 1)
                # the other side decides the same thing, with another outcome
                if any(l.rsplit('=', 1)[0] == k for l in (oc, og)[side] if l not in drop[1 - side] for bx, _, _ in clip((oc, og)[side][l], look, fl) if box_and(bx, r, fl)):
                    keep.append((lab, r, t, x, fl))
                    continue
                parts = [r]
                if side == 1:
                    for sx in before:
                        parts = [y for z in parts for y in box_sub(z, sx, fl)]
                for z in parts:
                    n = facts + ((side, k, v),)
                    push((t, c, z, n) if side == 0 else (g, t, z, n), lab, z)
                    silent.append(z)
            rem[side] = keep
        bad = []
        for side in (0, 1):
            for lab, r, t, x, fl in rem[side]:
                rest = [r]
                for sx in silent:
                    rest = [y for z in rest for y in box_sub(z, sx, fl)]
                o = (og, oc)[side]
                if rest and not decision(lab) and any(decision(l) and l in (oc, og)[side] and box_and(rest[0], b, fl) is not None for l in o for b, _, _ in o[l]):
                    # the same side also decides here: which of the two is meant cannot be told
                    vague = True
                    continue
                if rest:
                    bad.append((('spec', 'code')[side], lab, rest[0], x))
        if (g == spec.final) != (c == cur.final) and not silent:
            bad.append(('spec' if g == spec.final else 'code', '<end>', (), ''))
        if bad:
            tr = trace()
            for only, lab, box, site in bad:
                exp = sorted({b[1] for b in bad if b[0] == 'spec'})
                fnd = sorted({b[1] for b in bad if b[0] == 'code'})
                diffs.append(Diff(tr, only, lab, box, site, exp, fnd, facts))
            if len(diffs) >= limit:
                break
    return diffs, len(par), edges, vague


def show_step(ab, lab, box, ch):
    c = ch or lab.startswith('chr')
    if not box:
        return lab
    return lab + ' [' + ', '.join(ab.show(m, c) for m in box) + ']'
