"""The lexer's automaton against an independent definition of the token language."""
import json, re
from collections import deque
import dfa
from rules import Violation

EOF = 128
OPERATORS = {
    'Newline': '\n', 'ParenOpen': '(', 'ParenClose': ')', 'CurlyOpen': '{', 'CurlyClose': '}', 'SquareOpen': '[', 'SquareClose': ']', 'Bang': '!',
    'Tilde': '~', 'Pound': '#', 'Star': '*', 'Question': '?', 'Backslash': '\\', 'Percent': '%', 'Dash': '-', 'Equals': '=', 'Plus': '+', 'Colon': ':',
    'At': '@', 'Caret': '^', 'Slash': '/', 'Comma': ',', 'SingleQuote': "'", 'DoubleQuote': '"', 'Backtick': '`', 'Dollar': '$', 'AndIf': '&&', 'OrIf': '||',
    'DSemi': ';;', 'DLess': '<<', 'DGreat': '>>', 'GreatAnd': '>&', 'LessAnd': '<&', 'LessGreat': '<>', 'DLessDash': '<<-', 'Clobber': '>|', 'Pipe': '|',
    'Amp': '&', 'Less': '<', 'Great': '>', 'Semi': ';',
}
DIGITS = ['Zero', 'One', 'Two', 'Three', 'Four', 'Five', 'Six', 'Seven', 'Eight', 'Nine']
FIXED = dict(OPERATORS)
FIXED.update({'ParamPositional(%s)' % d: '$%d' % i for i, d in enumerate(DIGITS)})
BYTEXT = {v: k for k, v in FIXED.items()}
FIRST = {v[0] for v in OPERATORS.values()}


def bits(f):
    return sum(1 << i for i in range(133) if i != EOF and f(i))


WS = bits(lambda i: i == 129 or i < 128 and chr(i) in ' \t\x0b\x0c\r\x1c\x1d\x1e\x1f' and i not in (0x1c, 0x1d, 0x1e, 0x1f))
LETTER = bits(lambda i: i == 130 or i < 128 and chr(i).isalpha())
NAMESTART = LETTER | 1 << ord('_')
NAMECHAR = NAMESTART | bits(lambda i: i < 128 and chr(i).isdigit())
OPCH = bits(lambda i: i < 128 and chr(i) in FIRST)
EVERY = bits(lambda i: True)
WORDCH = EVERY & ~WS & ~OPCH


class Ref:
    """Decides, for the characters from a token's start on, what that token is.  c: classes (one bit each) as far as known; escaped: the
    character follows a backslash.  -> (kind, length or None while it goes on) or None: more characters are needed"""

    @staticmethod
    def start(c, escaped):
        x = c[0]
        if x & OPCH:
            ch = chr(x.bit_length() - 1)
            if escaped:
                return (BYTEXT[ch], 1)
            best = None
            n = 1
            t = ch
            while True:
                if t in BYTEXT:
                    best = t
                if not any(k != t and k.startswith(t) for k in BYTEXT):
                    return (BYTEXT[best], len(best))
                if n >= len(c):
                    return None
                y = c[n]
                if y == 1 << EOF or y.bit_length() > 129 or y & ~((1 << 128) - 1):
                    return (BYTEXT[best], len(best))
                cand = t + chr(y.bit_length() - 1) if bin(y).count('1') == 1 else t + '\0'
                if not any(k.startswith(cand) for k in BYTEXT):
                    return (BYTEXT[best], len(best))
                t = cand
                n += 1
        if x & WS:
            return ('Whitespace', 1 if escaped else None)
        if x & NAMESTART:
            return ('Name', 1 if escaped else None)
        return ('Literal', 1 if escaped else None)

    @staticmethod
    def more(kind, x):
        """does the character x belong to the open token"""
        return not x & ~{'Whitespace': WS, 'Name': NAMECHAR, 'Literal': WORDCH}[kind]


def minterms(d):
    ms = {WS, NAMESTART, NAMECHAR, OPCH, WORDCH, 1 << EOF}
    for o in d.out:
        for v in o.values():
            for b, _, _ in v:
                ms.update(b)
    for ch in ''.join(FIXED.values()):
        ms.add(1 << ord(ch))
    parts = [(1 << 133) - 1]
    for m in ms:
        parts = [q for p in parts for q in (p & m, p & ~m) if q]
    return parts


TEXT = re.compile(r'text(\d+) (=|\+=) chr(\d+)$')
AHEAD = re.compile(r'text(\d+) (=|\+=) peek(\d+)$')
CONST = re.compile(r'(Literal|Name|Whitespace)\(("[^"]+")\)$')
JOIN = re.compile(r'text(\d+) (=|\+=) s(\d+)\[')
PAYLOAD = re.compile(r'(Literal|Name|Whitespace)\((?:s(\d+)\[.*|s\[chr(\d+)\])\)$')


class Stop(Exception):
    pass


class Machine:
    """all inputs: the automaton of the code, run on classes of characters"""

    def __init__(self, d, window=3):
        self.d, self.window = d, window
        self.parts = minterms(d)
        self.need = [max((len(b) for v in o.values() for b, _, _ in v), default=0) for o in d.out]
        for s, o in enumerate(d.out):
            for l, v in o.items():
                if l == 'chr':
                    self.need[s] = max(self.need[s], 1)

    def steps(self, s, la):
        """[(label, to, look-ahead after, taken or None, site)] or [(None, s, longer look-ahead, None, '')]"""
        if len(la) < self.need[s] and not (la and la[-1] == 1 << EOF):
            if len(la) >= self.window:
                raise Stop('looks ahead over more than %d characters' % self.window)
            return [(None, s, la + (p,), None, '') for p in self.parts]
        out = []
        for l, v in self.d.out[s].items():
            for b, t, site in v:
                if all(i < len(la) and la[i] & m for i, m in enumerate(b)):
                    if l == 'chr':
                        if la[0] == 1 << EOF:
                            continue
                        out.append((l, t, la[1:], la[0], site))
                    else:
                        out.append((l, t, la, None, site))
        return out


def name(x):
    if bin(x).count('1') == 1:
        i = x.bit_length() - 1
        return repr(dfa.CH[i]) if i < 128 else dfa.CHN[i]
    # the characters beyond ASCII decide what it is called
    wide = x >> 128 << 128
    for m, t in ((NAMESTART, 'a letter'), (NAMECHAR, 'a digit'), (WS, 'a blank'), (WORDCH, 'another character')):
        if (wide or x) & m:
            return t
    return '?'


def tokenization(d, limit=400_000):
    """-> (statistics, violations of the token definition, violations of losslessness, undecided)"""
    m = Machine(d)
    keep = 1 + max([int(k) for o in d.out for l in o for k in re.findall(r'chr(\d+)', l)], default=0)
    # a configuration: (state, look-ahead, queue of characters not yet in a yielded token,
    #                   after a backslash?, ended?, texts the next characters are in already)
    # entries of the queue: (class, number of the text it is in)
    start = (0, (), (), False, False, ())
    par = {start: None}
    q = deque([start])
    tok, loss, und = [], [], []
    n = edges = 0

    def trace(c):
        out = []
        while par[c] is not None:
            c, l = par[c]
            if l:
                out.append(l)
        return out[::-1]
    yields = 0
    while q:
        c = q.popleft()
        n += 1
        if n > limit:
            und.append('more than %d configurations' % limit)
            break
        s, la, queue0, esc, ended, fut = c
        try:
            nxt = m.steps(s, la)
        except Stop as e:
            und.append(str(e))
            break
        for l, t, la2, x, site in nxt:
            edges += 1
            queue = q2 = queue0
            e2, en2, fut2 = esc, ended, fut
            ev = None if l is None else l if x is None else 'chr ' + name(x)
            if l is None:
                pass
            elif x is not None:
                q2 = squeeze(queue + ((x, fut[0] if fut else None),), keep)
                fut2 = fut[1:]
                if len(q2) > 6:
                    und.append('more than 6 characters are held back')
                    continue
            elif TEXT.match(l):
                i, op, k = TEXT.match(l).groups()
                if op == '=' and any(p == i for _, p in queue):
                    loss.append(Violation('text-lost:%s' % l, 'a text that holds characters is given up', site, trace(c) + [l]))
                    continue
                q2 = push(queue, int(k), i, keep)
                if q2 is None:
                    loss.append(Violation('text:%s' % l, 'a character gets into a text although it is in another one, or out of order', site, trace(c) + [l]))
                    continue
            elif AHEAD.match(l):
                i, op, k = AHEAD.match(l).groups()
                k = int(k)
                if op == '=' and any(p == i for _, p in queue):
                    loss.append(Violation('text-lost:%s' % l, 'a text that holds characters is given up', site, trace(c) + [l]))
                    continue
                if len(fut) > k:
                    loss.append(Violation('text:%s' % l, 'a character gets into a text although it is in another one, or out of order', site, trace(c) + [l]))
                    continue
                fut2 = fut + (None,) * (k - len(fut)) + (i,)
            elif JOIN.match(l):
                i, op, k = JOIN.match(l).groups()
                if op == '=' and any(p == i for _, p in queue):
                    loss.append(Violation('text-lost:%s' % l, 'a text that holds characters is given up', site, trace(c) + [l]))
                    continue
                if any(p == k and any(r == i for _, r in queue[j:]) for j, (_, p) in enumerate(queue)):
                    loss.append(Violation('text-order:%s' % l, 'texts are joined out of order', site, trace(c) + [l]))
                    continue
                q2 = tuple((cl, i if p == k else p) for cl, p in queue)
            elif l.startswith('yield after end'):
                loss.append(Violation('after-end', 'a token is yielded after the end was reported', site, trace(c) + [l]))
                continue
            elif l.startswith('yield '):
                yields += 1
                k = l[6:]
                pm = PAYLOAD.match(k)
                if pm:
                    kind, i = pm[1], pm[2]
                    if i in fut and i is not None:
                        und.append('a token is yielded before its characters are taken')
                        continue
                    if i is None:
                        queue = push(queue, int(pm[3]), '0', keep)
                        i = '0'
                    j = 0
                    while queue and j < len(queue) and queue[j][1] == i:
                        j += 1
                    if j == 0 or any(p == i for _, p in queue[j:]):
                        loss.append(Violation('text-yield:%s' % kind, 'a %s is yielded whose text does not hold exactly the characters that are due: %s' % (kind, ' '.join(name(cl) for cl, _ in queue or ())), site, trace(c) + [l]))
                        continue
                elif k in FIXED or CONST.match(k):
                    kind, text = k, FIXED.get(k)
                    if text is None:
                        kind, text = CONST.match(k).groups()
                        try:
                            text = json.loads(text)
                        except ValueError:
                            und.append('the text of %s is not known' % k)
                            continue
                    j = len(text)
                    if len(queue) < j or any(p or cl != 1 << min(ord(ch), 132) for (cl, p), ch in zip(queue, text)):
                        loss.append(Violation('fixed:%s' % k, 'the token %s (%r) is yielded for the characters %s' % (k, text, ' '.join(name(cl) for cl, _ in queue[:max(j, 1)]) or '(none)'), site, trace(c) + [l]))
                        continue
                else:
                    und.append('the text of %s is not known' % k)
                    continue
                # what the definition says of the characters at the front
                seen = tuple(cl for cl, _ in queue) + la2
                r = Ref.start(seen, esc)
                if r is None:
                    # the code decided without looking at the next character
                    und_next = [p for p in m.parts]
                    bad = False
                    for p in und_next:
                        r = Ref.start(seen + (p, 1 << EOF), esc)
                        if r and r != (kind, j):
                            tok.append(Violation('token:%s' % kind, 'the characters %s followed by %s make %s, the code yields %s without looking' % (' '.join(map(name, seen)), name(p), r[0], kind), site, trace(c) + [l]))
                            bad = True
                            break
                    if bad:
                        continue
                    r = (kind, j)
                if r[0] != kind:
                    tok.append(Violation('token:%s:%s' % (r[0], kind), 'the characters %s make a %s, the code yields a %s' % (' '.join(map(name, seen[:3])), r[0], kind), site, trace(c) + [l]))
                    continue
                if r[1] is not None and r[1] != j:
                    tok.append(Violation('extent:%s' % kind, 'a %s is yielded that extends over %d characters instead of %d' % (kind, j, r[1]), site, trace(c) + [l]))
                    continue
                if r[1] is None:
                    bad = next((cl for cl, _ in queue[1:j] if not Ref.more(kind, cl)), None)
                    if bad is not None:
                        tok.append(Violation('extent:%s:%x' % (kind, bad), 'a %s goes on over %s' % (kind, name(bad)), site, trace(c) + [l]))
                        continue
                    rest = seen[j:]
                    cand = rest[:1] or tuple(m.parts)
                    bad = next((cl for cl in cand if cl != 1 << EOF and Ref.more(kind, cl)), None)
                    if bad is not None:
                        tok.append(Violation('split:%s:%x' % (kind, bad), 'a %s ends although %s follows' % (kind, name(bad)), site, trace(c) + [l]))
                        continue
                q2 = queue[j:]
                e2 = not esc and kind == 'Backslash'
            elif l == 'end':
                if queue:
                    loss.append(Violation('left', 'the end is reported while characters are in no token: %s' % ' '.join(name(cl) for cl, _ in queue), site, trace(c) + [l]))
                    continue
                if la2 != (1 << EOF,):
                    bad = [la2] if la2 else [(p,) for p in m.parts if p != 1 << EOF]
                    if bad and bad[0] != (1 << EOF,):
                        loss.append(Violation('early-end', 'the end is reported while there are characters', site, trace(c) + [l]))
                        continue
                en2 = True
            elif l == 'ret':
                continue
            elif l.startswith('?') or l == 'PANIC':
                pass
            else:
                und.append('unknown event ' + l[:80])
                continue
            k = (t, la2, q2, e2, en2, fut2)
            if k not in par:
                par[k] = (c, ev)
                q.append(k)
        if len(tok) + len(loss) > 8 or len(und) > 20:
            break
    und = sorted(set(und))
    return {'configurations': n, 'transitions': edges, 'yields_checked': yields, 'character_classes': len(m.parts)}, tok, loss, und


def push(queue, k, i, keep):
    """the queue with its character number k, counted from the last one taken, in text i"""
    j = len(queue) - 1 - k
    if j < 0 or queue[j][1] is not None or any(p == i for _, p in queue[j + 1:]):
        return None
    return squeeze(queue[:j] + ((queue[j][0], i),) + queue[j + 1:], keep)


def squeeze(q, keep):
    """of a character that is in a text only its kind matters, and inside a text of any length, before those the code still refers to, not even their number"""
    out = []
    for i, (cl, t) in enumerate(q):
        if t is not None:
            if not out or out[-1][1] != t:
                cl = kind_of(cl, (NAMESTART, WS))
            else:
                cl = kind_of(cl, (NAMECHAR, WORDCH, WS))
                if i < len(q) - keep and len(out) > 1 and out[-2][1] == t:
                    cl = kind_of(cl | out.pop()[0], (NAMECHAR, WORDCH, WS))
        out.append((cl, t))
    return tuple(out)


def kind_of(cl, kinds):
    for m in kinds:
        if not cl & ~m:
            return m
    if kinds[0] == NAMESTART:
        return WORDCH & ~NAMESTART if not cl & ~WORDCH else cl
    return EVERY


HINT = re.compile(r'hint \((\d+|in\.lo(?:\+(\d+))?), (None|Some\(in\.hi(?:\+(\d+))?\))\)$')


def hints(d):
    """-> (statistics, violations, undecided): the announced bounds against the tokens that really follow, for every input"""
    m = Machine(d)
    nodes, order = {}, []
    edges = []           # (from, to, yields, taken, label, site)
    asked = []           # (node, label, site)
    par = {}

    def node(k, p=None, l=None):
        if k not in nodes:
            nodes[k] = len(order)
            order.append(k)
            par[nodes[k]] = (p, l)
        return nodes[k]
    node((0, ()))
    final = set()
    i = 0
    while i < len(order):
        s, la = order[i]
        try:
            nxt = m.steps(s, la)
        except Stop as e:
            return {}, [], [str(e)]
        for l, t, la2, x, site in nxt:
            if l is not None and l.startswith('hint '):
                asked.append((i, l, site))
                continue
            if l == 'ret':
                final.add(i)
                continue
            y = 1 if l is not None and l.startswith('yield ') else 0
            edges.append((i, node((t, la2), i, l if x is None else 'chr ' + name(x)), y, 0 if x is None else 1))
        i += 1
    n = len(order)
    INF = 10 ** 9
    lo = [INF] * n       # least number of tokens that follow
    hi = [-INF] * n      # largest excess of tokens over characters that follow
    for f in final:
        lo[f] = hi[f] = 0
    und = []
    changed, rounds = True, 0
    back = [[] for _ in range(n)]
    for f, t, y, x in edges:
        back[t].append((f, y, x))
    work = deque(final)
    cnt = [0] * n
    over = set()
    while work:
        t = work.popleft()
        cnt[t] += 1
        for f, y, x in back[t]:
            a = lo[t] + y
            b = min(hi[t] + y - x, 50)
            if a < lo[f] or b > hi[f]:
                lo[f], hi[f] = min(a, lo[f]), max(b, hi[f])
                work.append(f)
    viol = []

    def trace(i):
        out = []
        while i is not None and par[i][0] is not None or (i is not None and par[i][1]):
            i, l = par[i]
            if l:
                out.append(l)
        return out[::-1]
    seen = set()
    for i, l, site in asked:
        h = HINT.match(l)
        if not h:
            und.append('the bounds are not understood: ' + l[:80])
            continue
        if lo[i] == INF:
            continue
        if h[1].startswith('in.lo'):
            # the lower bound of the characters is at most their number: tokens may be fewer
            viol.append(Violation('lo:' + l, 'size_hint promises as many tokens as there are characters', site, trace(i) + [l]))
            continue
        if int(h[1]) > lo[i]:
            viol.append(Violation('lo:' + l, 'size_hint promises at least %s tokens, there can be just %d' % (h[1], lo[i]), site, trace(i) + [l]))
        if h[3] != 'None' and hi[i] > int(h[4] or 0):
            viol.append(Violation('hi:' + l, 'size_hint promises at most %s tokens where more can follow (%s more than there are characters left)' % (h[3], hi[i] if hi[i] < 50 else 'any number'), site, trace(i) + [l]))
    viol.sort(key=lambda v: len(v.trace))
    out = []
    for v in viol:
        if v.key not in {o.key for o in out}:
            out.append(v)
    return {'configurations': n, 'hints_checked': len(asked)}, out, sorted(set(und))
