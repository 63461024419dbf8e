"""Rules on the automata that need no specification to compare with."""
import re
from collections import Counter, defaultdict

ADAPT = {'balanced', 'single_quoted', 'double_quoted', 'backticked', 'backticked_remove_backslashes', 'adapter', 'adapter1'}


def head(l):
    return re.split(r'[(@]', l, maxsplit=1)[0]


def outcome(l):
    return l.split('→', 1)[1] if '→' in l else None


def edges(rec):
    sites = rec['sites']
    for f, t, l, cells, s in rec['edges']:
        yield f, t, rec['labels'][l], cells, sites[s]


class Violation:
    sure = False

    def __init__(self, key, text, site='', trace=None):
        self.key, self.text, self.site, self.trace = key, text, site, trace or []


def path_to(rec, state):
    """labels of a shortest path from the start to a state"""
    par = {0: None}
    out = defaultdict(list)
    for f, t, l, c, s in edges(rec):
        out[f].append((t, l))
    q = [0]
    for x in q:
        if x == state:
            break
        for t, l in out[x]:
            if t not in par:
                par[t] = (x, l)
                q.append(t)
    tr, x = [], state
    while par.get(x):
        x, l = par[x]
        tr.append(l)
    return tr[::-1]


def distances(rec):
    """how many steps each state is from the start"""
    out = defaultdict(list)
    for f, t, l, c, s in edges(rec):
        out[f].append(t)
    dist, q = {0: 0}, [0]
    for x in q:
        for t in out[x]:
            if t not in dist:
                dist[t] = dist[x] + 1
                q.append(t)
    return dist


# ---------------------------------------------------------------- panics
OVERFLOW = {'add overflow', 'multiply overflow'}
PANICKING = re.compile(r': (\w+::index|\w+::index_mut|\w+::split_at|Vec::remove|Vec::swap_remove|Vec::drain|Vec::insert|Vec::split_off|String::remove|String::insert|String::truncate|String::drain|Option::unwrap|Option::expect|Result::unwrap|Result::expect|slice::copy_from_slice|slice::split_at|slice::swap|RefCell::borrow_mut|RefCell::borrow)$')


def panics(rec, sp):
    """(obligations, violations); sp: the reviewed state of the same function, whose unproved checks hold for reasons given in DESIGN.md"""
    out = []
    n = 0
    for what, site in rec.get('panics', []):
        n += 1
        out.append(Violation('panic:%s:%s' % (rec['name'], what), 'a panic is reachable in %s: %s' % (rec['name'], what), site))
    had = Counter(k for _, k, _ in sp.get('asserts', []))
    for fn, kind, site in rec.get('asserts', []):
        n += 1
        if kind in OVERFLOW:
            continue
        had[kind] -= 1
        if had[kind] < 0:
            v = Violation('assert:%s:%s' % (rec['name'], kind), 'in %s a run-time check is not shown to hold: %s in %s' % (rec['name'], kind, fn), site)
            # arithmetic on numbers taken from the input can always overflow, whatever else is known
            v.sure = ' of ' in kind
            out.append(v)
    method = lambda o: o.rsplit('::', 1)[1]
    had = Counter(method(o) for o in sp.get('opaque', []) if PANICKING.search(o))
    for o in rec.get('opaque', []):
        if PANICKING.search(o):
            n += 1
            fn, call = o.rsplit(': ', 1)
            had[method(o)] -= 1
            if had[method(o)] < 0:
                out.append(Violation('call:%s:%s' % (rec['name'], call), 'in %s a call that can panic is not shown to be safe: %s' % (rec['name'], o)))
    return n, out


# ---------------------------------------------------------------- errors
def error_propagation(rec):
    out = []
    n = 0
    nxt = defaultdict(list)
    for f, t, l, c, s in edges(rec):
        nxt[f].append((l, t, s))
    for f in nxt:
        for l, t, s in nxt[f]:
            if l.startswith(('ret', '?')) or '→' not in l or not outcome(l).startswith('Err'):
                continue
            n += 1
            h = l.rsplit('→', 1)[0]
            ok = set()
            # the head up to its argument list
            d = 0
            cut = len(h)
            for i, ch in enumerate(h):
                if ch == '<':
                    d += 1
                elif ch == '>':
                    d -= 1
                elif ch == '(' and d == 0:
                    cut = i
                    break
            hd = h[:cut]
            if hd.startswith('B.'):
                ok = {'ret Err(Custom(%s.Err))' % hd}
            else:
                ok = {'ret Err(%s.Err)' % hd}
                if head(hd) in ADAPT or head(hd) == 'backticked_stream':
                    ok.add('ret Err(Unmatched(%s.Err.0, %s.Err.1))' % (hd, hd))
            for l2, t2, s2 in nxt[t]:
                if l2.replace('*', '').split(' iter=')[0] not in {x.replace('*', '') for x in ok}:
                    out.append(Violation('err:%s:%s:%s' % (rec['name'], head(hd), l2[:80]),
                                         'after the error of `%s` comes `%s` instead of returning that error' % (hd, l2), s2, path_to(rec, f) + [l]))
    return n, out


# ---------------------------------------------------------------- progress
def match(o, r):
    if o == 'Err':
        return r.startswith('Err(')
    if r.startswith('Err('):
        return False
    pats = {'Ok': 'Ok(', 'Ok None': 'Ok(None)', 'Ok Some': 'Ok(Some(', 'Ok Some Err': 'Ok(Some(Err(', 'Ok Some Ok': 'Ok(Some(Ok(',
            'Ok []': 'Ok([])', 'None': 'None', 'Some': 'Some(', '[]': '[]'}
    if o in pats:
        return r.startswith(pats[o]) and not (o == '[]' and r != '[]')
    if o == 'Ok [+]':
        return r.startswith('Ok([') and not r.startswith('Ok([])')
    if o == '[+]':
        return r.startswith('[') and r != '[]'
    m = re.match(r'Ok \((\w+)', o)
    if m:
        return r.startswith('Ok((' + m[1])
    m = re.match(r'Ok (\w+)$', o)
    if m:
        return r.startswith('Ok(' + m[1])
    return True


def progress(recs):
    """no loop and no recursion without taking a token; recs: all productions"""
    recs = {n: r for n, r in recs.items() if 'edges' in r}
    nullable = set()
    outs = defaultdict(set)
    for r in recs.values():
        for l in r['labels']:
            if '→' in l and head(l) in recs:
                outs[head(l)].add(outcome(l))

    def consuming(l):
        if l in ('tok', 'ws', 'chr') or l.startswith(('tok:', 'chr:', 'ws:')):
            return True
        o = outcome(l)
        if o is None:
            return False
        h = head(l)
        if h in ADAPT:
            return o == 'Ok'
        if h == 'backticked_stream':
            return True
        return h in recs and (h, o) not in nullable

    def early(r):
        nx = defaultdict(list)
        for f, t, l, c, s in edges(r):
            nx[f].append((l, t, s))
        seen, st, labs = {0}, [0], {}
        while st:
            x = st.pop()
            for l, t, s in nx[x]:
                labs.setdefault(l, s)
                if not consuming(l) and t not in seen:
                    seen.add(t)
                    st.append(t)
        return labs, nx
    while True:
        new = set()
        for n, r in recs.items():
            for l in early(r)[0]:
                if l.startswith('ret '):
                    v = l[4:].split(' iter=')[0]
                    new |= {(n, o) for o in outs[n] if match(o, v)}
        if new <= nullable:
            break
        nullable |= new
    graph, where = {}, {}
    viol = []
    n_cyc = n_st = 0
    for n, r in recs.items():
        labs, nx = early(r)
        graph[n] = {head(l) for l in labs if outcome(l) is not None and head(l) in recs}
        for l, s in labs.items():
            where.setdefault((n, head(l)), s)
        for labels, sites in r.get('idle', []):
            viol.append(Violation('idle:%s:%s' % (n, ';'.join(labels)[:120]), 'a loop of %s takes no token (%s)' % (n, '; '.join(labels)[:300] or 'no event on it'), ', '.join(sites)[:200]))
        g = {f: [(t, l, s) for l, t, s in v if not consuming(l)] for f, v in nx.items()}
        for c in scc({f: [t for t, _, _ in v] for f, v in g.items()}):
            cs = set(c)
            inner = [(l, s) for f in c for t, l, s in g.get(f, []) if t in cs]
            calls = [(l, s) for l, s in inner if outcome(l) is not None and head(l) in recs]
            n_cyc += bool(inner)
            if calls:
                viol.append(Violation('loop:%s:%s' % (n, ','.join(sorted({head(l) for l, _ in calls}))),
                                      'a loop of %s calls %s, which can return without taking a token' % (n, ', '.join(sorted({l for l, _ in calls}))[:200]), calls[0][1]))
        n_st += r['n']
    for c in scc(graph):
        if len(c) > 1 or c[0] in graph.get(c[0], ()):
            p = sorted(c)
            viol.append(Violation('leftrec:' + ','.join(p), 'productions call each other without taking a token: ' + ' → '.join(p), where.get((c[-1], c[-2 % len(c)]), '')))
    return {'nullable': sorted('%s→%s' % x for x in nullable), 'states': n_st, 'call_edges': sum(map(len, graph.values())), 'cycles': n_cyc}, viol


def scc(g):
    idx, low, st, on, res = {}, {}, [], set(), []
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g.get(w, ()))))
                    adv = True
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                res.append(c)
    return res
