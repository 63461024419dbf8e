"""Terms as the analyser shows them: reading, normal form, comparison."""
import re

TOK = re.compile(r'\s*(?:("(?:\\.|[^"\\])*")|(-?\d+)(?![\w.])|([A-Za-z_]\w*(?:::\w+)*(?:\.(?:\w+|\[\d+\]))*)|(.))', re.S)
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


OPS = {'Add', 'Sub', 'Mul', 'Div', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}


class Unreadable(Exception):
    pass


def unquote(s):
    def r(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        return ESC[x]
    return re.sub(r'\\(u\{[0-9a-f]+\}|x[0-9a-f]{2}|.)', r, s[1:-1])


# terms: ('s', text) | ('i', n) | ('v', path) | ('a', name, args) | ('r', name, {field: term}) | ('t', args)
def S(x):
    return ('s', x)


def I(n):
    return ('i', n)


def V(p):
    return ('v', p)


def A(name, *args):
    return norm(('a', name, list(args)))


def R(name, **fields):
    return ('r', name, {k.lstrip('_'): v for k, v in fields.items()})


def T(*args):
    return ('t', list(args))


def sub(t, *path):
    """the part of a symbolic value"""
    assert t[0] == 'v', t
    return V('.'.join((t[1],) + tuple(str(p) for p in path)))


class Reader:
    def __init__(self, text):
        self.text, self.i = text, 0

    def peek(self):
        m = TOK.match(self.text, self.i)
        return m

    def at(self, c):
        m = self.peek()
        return m is not None and m.group(4) == c

    def eat(self, c):
        m = self.peek()
        if m is not None and m.group(4) == c:
            self.i = m.end()
            return True
        return False

    def need(self, c):
        if not self.eat(c):
            raise Unreadable(self.text)

    def args(self, close):
        out = []
        while not self.eat(close):
            out.append(self.term())
            if not self.at(close):
                self.need(',')
        return out

    def tight(self, j, a):
        r = Reader(self.text)
        r.i = j
        r.term()
        return self.text[r.i:r.i + 2] != ', '

    def term(self):
        m = self.peek()
        if m is None:
            raise Unreadable(self.text)
        self.i = m.end()
        if m.group(1) is not None:
            return S(unquote(m.group(1)))
        if m.group(2) is not None:
            return I(int(m.group(2)))
        if m.group(4) is not None:
            if m.group(4) == '(':
                return T(*self.args(')'))
            raise Unreadable(self.text)
        n = m.group(3)
        if n in ('count', 'all') and self.text[self.i:self.i + 1] == '(':
            # how many of a text's characters, or whether all of them, are in a class
            at = re.compile(r'\((?:"(?:\\.|[^"\\])*"|[^()"]|\([^()]*\))*? in ').match(self.text, self.i)
            k = self.text.find(')', at.end()) if at else -1
            if k >= 0:
                x = read(self.text[self.i + 1:at.end() - 4])
                self.i = k + 1
                return ('a', n, [x, S(self.text[at.end():k])])
        c = self.text[self.i:self.i + 1]
        if c == '(':
            self.need('(')
            j = self.i
            a = self.args(')')
            if n in ('Eq', 'Ne') and len(a) == 2 and a[1] == I(0) and a[0][0] == 'a' and a[0][1] == 'count' and len(a[0][2]) == 1 and a[0][2][0][0] == 'v':
                a[0] = V(a[0][2][0][1] + '.len')
            # numbers' operators are shown without a space after the comma, constructors with one
            return ('a', n, a) if n in OPS and ', ' in self.text[j:self.i] and not self.tight(j, a) else A(n, *a)
        if c == '{':
            self.need('{')
            fs = {}
            while not self.eat('}'):
                m = self.peek()
                k = m.group(3) or m.group(2)
                if k is None:
                    raise Unreadable(self.text)
                self.i = m.end()
                self.need(':')
                fs[k] = self.term()
                if not self.at('}'):
                    self.need(',')
            return ('r', n, fs)
        if '.' in n or n[0].islower():
            return V(n)
        return A(n)


def read(text):
    r = Reader(text)
    t = r.term()
    if r.text[r.i:].strip():
        raise Unreadable(text)
    return t


def split_bar(text):
    """the top-level parts of "ret a | b | c" """
    out, d, q, cur, i = [], 0, False, '', 0
    while i < len(text):
        c = text[i]
        if q:
            if c == '\\':
                cur += text[i:i + 2]
                i += 2
                continue
            if c == '"':
                q = False
        elif c == '"':
            q = True
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '|' and d == 0 and cur.endswith(' '):
            out.append(cur.strip())
            cur = ''
            i += 1
            continue
        cur += c
        i += 1
    out.append(cur.strip())
    return out


def norm(t):
    if t[0] != 'a':
        return t
    n, a = t[1], t[2]
    if n == 'cat':
        out = []
        for x in a:
            for y in (x[2] if x[0] == 'a' and x[1] == 'cat' else [x]):
                if y == S(''):
                    continue
                if y[0] == 's' and out and out[-1][0] == 's':
                    out[-1] = S(out[-1][1] + y[1])
                else:
                    out.append(y)
        return S('') if not out else out[0] if len(out) == 1 else ('a', 'cat', out)
    if n == 'xv':
        return ('a', 'xv', a)
    if n == 'Add':
        k, out = 0, []
        for x in a:
            for y in (x[2] if x[0] == 'a' and x[1] == 'Add' else [x]):
                if y[0] == 'i':
                    k += y[1]
                else:
                    out.append(y)
        out.sort(key=repr)
        if not out:
            return I(k)
        if k:
            out.append(I(k))
        return out[0] if len(out) == 1 else ('a', 'Add', out)
    if n in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and len(a) == 2 and a[0][0] == a[1][0] == 'i':
        x, y = a[0][1], a[1][1]
        return I(int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[n]))
    if n == 'Not' and len(a) == 1 and a[0][0] == 'i' and a[0][1] in (0, 1):
        return I(1 - a[0][1])
    return t


def show(t):
    if t[0] == 's':
        return '"%s"' % t[1].replace('\n', '\\n')
    if t[0] == 'i':
        return str(t[1])
    if t[0] == 'v':
        return t[1]
    if t[0] == 'any':
        return '_'
    if t[0] == 't':
        return '(%s)' % ', '.join(map(show, t[1]))
    if t[0] == 'r':
        return '%s{%s}' % (t[1], ', '.join('%s: %s' % (k, show(v)) for k, v in t[2].items()))
    if t[1] == 'xv':
        return '[%s]' % ', '.join(map(show, t[2]))
    return t[1] + ('(%s)' % ', '.join(map(show, t[2])) if t[2] else '')


KNOWN = {'cat', 'fmt', 'REC', 'count', 'all', 'xv', 'trunc'}


def foreign(t, own=()):
    """the functions in a term whose results nothing is known of"""
    if t[0] == 'a':
        last = t[1].rsplit('::', 1)[-1]
        if '.' in t[1] or t[2] and last[:1].islower() and last not in KNOWN and last not in own:
            yield t[1]
        for x in t[2]:
            yield from foreign(x, own)
    elif t[0] == 'r':
        for x in t[2].values():
            yield from foreign(x, own)
    elif t[0] == 't':
        for x in t[1]:
            yield from foreign(x, own)


def names(t):
    """the functions and constructors in a term"""
    if t[0] == 'a':
        yield t[1]
        for x in t[2]:
            yield from names(x)
    elif t[0] == 'r':
        for x in t[2].values():
            yield from names(x)
    elif t[0] == 't':
        for x in t[1]:
            yield from names(x)
    elif t[0] == 'v':
        yield t[1]


def same(code, ref, val, rec=None):
    """Is the term of the code the reference?  val: what is known of symbolic values (path -> variant, length or number); rec: whether a name is
    that of the function under analysis itself (reference: REC)."""
    if ref == ('any',):
        return True
    if code == ref:
        return True
    if code[0] == 'v' and ref[0] != 'v':
        k = val.get(code[1])
        if ref[0] == 'i':
            return k == str(ref[1])
        if ref[0] == 'a' and ref[1] == 'xv':
            return k == '[%d]' % len(ref[2]) and all(same(V('%s.[%d]' % (code[1], i)), x, val, rec) for i, x in enumerate(ref[2]))
        if ref[0] == 'a':
            return k == ref[1] and all(same(V('%s.%s.%d' % (code[1], k, i)), x, val, rec) for i, x in enumerate(ref[2]))
        if ref[0] == 'r':
            return all(same(V('%s.%s' % (code[1], f)), x, val, rec) or same(V('%s.%s.%s' % (code[1], ref[1], f)), x, val, rec) for f, x in ref[2].items())
        if ref[0] == 't':
            return all(same(V('%s.%d' % (code[1], i)), x, val, rec) for i, x in enumerate(ref[1]))
        return False
    if ref[0] == 'v' and code[0] != 'v':
        return same(ref, code, val, rec)
    if code[0] != ref[0]:
        return False
    if code[0] == 'a':
        n = 'REC' if rec and rec(code[1]) else code[1]
        return n == ref[1] and len(code[2]) == len(ref[2]) and all(same(a, b, val, rec) for a, b in zip(code[2], ref[2]))
    if code[0] == 'r':
        return code[1] == ref[1] and code[2].keys() == ref[2].keys() and all(same(v, ref[2][k], val, rec) for k, v in code[2].items())
    if code[0] == 't':
        return len(code[1]) == len(ref[1]) and all(same(a, b, val, rec) for a, b in zip(code[1], ref[1]))
    return False
