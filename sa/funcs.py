"""Single functions, all of whose results the analyser gives as terms over the arguments, against reference functions."""
import re
import core, terms
from engine import SUSPICIOUS
from lexer import DIGITS, OPERATORS
from rules import Violation
from terms import A, I, R, S, T, V, read, same, show, sub

ANY = ('any',)
CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}


class Need(Exception):
    """the reference depends on something the path of the code does not"""
    def __init__(self, key, alts):
        self.key, self.alts = key, alts


class Wrong(Exception):
    pass


class Skip(Exception):
    """outside the documented precondition"""


class Path:
    def __init__(self, labels, site):
        self.val, self.cmp, self.events, self.cfg, self.labels, self.site, self.foreign, self.never = {}, [], [], {}, labels, site, [], {}
        self.ret, self.outs, self.panic = None, [], None
        long = []
        for l in labels:
            if l.startswith('?'):
                k, v = l[1:].rsplit('=', 1)
                if re.match(r'(Lt|Le|Gt|Ge)\(cat\([^()]*\)\.len,([2-9]|[1-9]\d+)\)$', k):
                    # one condition on how long a text is can hold and can fail
                    long.append(k)
                elif re.match(r'(Eq|Ne|Lt|Le|Gt|Ge)\(', k):
                    t = read(k)
                    self.cmp.append((t[1], t[2][0], t[2][1], v == '1'))
                else:
                    if not v.startswith('other'):
                        self.val[k] = v
                    if re.match(r'count\(|.*\.len$', k):
                        for c in v.split('|')[1:] or [v]:
                            self.cmp.append(('Eq', read(k), I(int(c)), not v.startswith('other')))
                    else:
                        if v.startswith('other'):
                            self.val[k] = 'other'
                            self.never[k] = self.never.get(k, set()) | {int(c) for c in v.split('|')[1:]}
                        if '(' in k:
                            self.foreign.append(k.split('(')[0])
            elif l.startswith('PANIC'):
                self.panic = l[6:]
            elif l.startswith('ret '):
                p = terms.split_bar(l[4:])
                self.ret, self.outs = read(p[0]), [read(x) for x in p[1:]]
            elif re.match(r'arg\d=', l):
                k, v = l.split('=', 1)
                self.cfg[k] = read(v)
            else:
                self.events.append(l)
        # one condition on the characters of a text can hold and can fail
        if self.foreign == ['all']:
            self.foreign = []
        if len(long) > 1:
            self.foreign += long


def paths(rec):
    out = {}
    for f, t, l, c, *s in rec['edges']:
        out.setdefault(f, []).append((rec['labels'][l], t, rec['sites'][s[0]] if s else ''))
    stack = [(0, [], '')]
    while stack:
        s, p, site = stack.pop()
        if s == rec['final']:
            # what is asked twice is answered in the same way
            said = {}
            if all(said.setdefault(*l.rsplit('=', 1)) == l.rsplit('=', 1)[1] for l in p if l.startswith('?') and '=other' not in l):
                yield Path(p, site)
        elif s not in out:
            raise core.Undecided('a path that ends without a result: %s' % '; '.join(p)[:200])
        if len(p) > 400:
            raise core.Undecided('a loop')
        for l, t, w in out.get(s, []):
            if l.startswith('?') and l.endswith('=other'):
                k = l[:-5]
                l += ''.join('|' + x[len(k):] for x, _, _ in out[s] if x.startswith(k) and x[len(k):].isdigit())
            stack.append((t, p + [l], w if (w and not w.startswith('src/lib.rs:1') or not site) else site))


class Cx:
    def __init__(self, path, val, cmp, rec):
        self.path, self.val, self.cmps, self.rec, self.ix = path, val, cmp, rec, 0

    def arg(self, n):
        return self.path.cfg.get(n, V(n))

    def case(self, t, alts):
        """the variant of a value, and its parts"""
        if t[0] == 'a':
            return t[1], list(t[2])
        assert t[0] == 'v', t
        if t[1] not in self.val:
            raise Need(t[1], alts)
        return self.val[t[1]], None

    def part(self, t, *path):
        """a part given by path; constructors of known terms are stepped into"""
        for p in path:
            if t[0] == 'a':
                if p == t[1]:
                    continue
                t = t[2][int(p)]
            elif t[0] == 'r':
                t = t[2][str(p)]
            elif t[0] == 't':
                t = t[1][int(p)]
            else:
                t = sub(t, p)
        return t

    def items(self, t):
        if t[0] == 'a' and t[1] == 'xv':
            return t[2]
        k = self.val.get(t[1])
        if k is None or not k.startswith('['):
            raise Need(t[1], ['[0]', '[1]', '[2]'])
        return [V('%s.[%d]' % (t[1], i)) for i in range(int(k[1:-1]))]

    def flag(self, t):
        if t[0] == 'i':
            return t[1] != 0
        if t[1] not in self.val:
            raise Need(t[1], ['0', '1'])
        return self.val[t[1]] == '1'

    def compare(self, op, a, k):
        """whether a <op> k, as far as the comparisons on the path settle it"""
        cs = [(o, y[1], v) if x == a and y[0] == 'i' else ({'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(o, o), x[1], v)
              for o, x, y, v in self.cmps if x == a and y[0] == 'i' or y == a and x[0] == 'i']
        pts = {p for _, c, _ in cs for p in (c - 1, c, c + 1)} | {k - 1, k, k + 1}
        pts = [p for p in sorted(pts) if p >= 0 and all(CMP[o](p, c) == v for o, c, v in cs)]
        if a[0] == 'v' and self.val.get(a[1], 'other') != 'other':
            pts = [int(self.val[a[1]])]
        res = {CMP[op](p, k) for p in pts}
        if len(res) == 1:
            return res.pop()
        raise Need((op, a, I(k)), [True, False])

    def call(self, name, *args):
        """an event the code must have here; -> 'Ok' or 'Err'"""
        ev = self.path.events
        if self.ix >= len(ev):
            raise Wrong('the call %s(%s) is missing' % (name, ', '.join(map(show, args))))
        m = re.match(r'(.*)→(\w+)$', ev[self.ix])
        self.ix += 1
        got = read(m.group(1)) if m else None
        if got is None or got[1] != name or len(got[2]) != len(args) or not all(same(x, y, self.val, self.rec) for x, y in zip(got[2], args)):
            raise Wrong('expected the call %s(%s), found %s' % (name, ', '.join(map(show, args)), ev[self.ix - 1]))
        return m.group(2)


def check(name, rec, ref):
    """-> (number of paths, violations, undecided)"""
    if 'edges' not in rec:
        return 0, [], ['%s: %s' % (name, (rec.get('error') or rec.get('dfa_error') or '?')[:200])]
    own = {x.rsplit('::', 1)[-1] for x in rec.get('inlined', [])} | {name.rsplit('.', 1)[-1]}
    ops = {o.rsplit(': ', 1)[-1].rsplit('::', 1)[-1] for o in rec.get('opaque', [])}
    recursive = own & ops
    isrec = (lambda n: n.rsplit('::', 1)[-1] in recursive) if len(recursive) == 1 else None
    unknown = ops - (recursive if len(recursive) == 1 else set())
    tops = ['branches on %s in %s' % (t[2], t[0]) for t in rec.get('tops', [])]
    n, viol, und = 0, [], []
    try:
        for p in paths(rec):
            n += 1
            work = [(dict(p.val), list(p.cmp))]
            while work:
                val, cmp = work.pop()
                cx = Cx(p, val, cmp, isrec)
                why = None
                try:
                    want = ref(cx)
                    if p.panic:
                        why = 'it panics: ' + p.panic
                    elif cx.ix < len(p.events):
                        why = 'an additional `%s`' % p.events[cx.ix]
                    else:
                        want, outs = want if isinstance(want, tuple) and want and want[0] == 'and' and False else (want, None)
                        why = differs(p, want, val, isrec)
                except Skip:
                    continue
                except Need as e:
                    for a in e.alts:
                        if isinstance(e.key, tuple):
                            work.append((val, cmp + [(e.key[0], e.key[1], e.key[2], a)]))
                        else:
                            work.append((dict(val, **{e.key: a}), cmp))
                    continue
                except Wrong as e:
                    why = str(e)
                if why is None:
                    continue
                if tops:
                    und.append('%s: %s' % (name, tops[0]))
                    continue
                used = {x.rsplit('::', 1)[-1].rsplit('.', 1)[-1] for x in (terms.names(p.ret) if p.ret else ())}
                used |= {x.rsplit('::', 1)[-1] for o in p.outs for x in terms.names(o)}
                alien = p.foreign + [x for t in [p.ret] + p.outs if t for x in terms.foreign(t, own)] + [e for e in p.events if not e.startswith('B.')]
                if alien and not p.panic:
                    alien = [re.split('[→(]', x)[0] for x in alien]
                    if not any(SUSPICIOUS.search(x) for x in alien):
                        und.append('%s: uses %s, of which nothing is known' % (name, ', '.join(sorted(set(alien)))[:200]))
                        continue
                odd = [u for u in unknown if u in used or any(u + '(' in l for l in p.labels)]
                if any(not SUSPICIOUS.search(u) for u in odd) or '?' in used or '_' in used:
                    und.append('%s: uses %s, which has no model' % (name, ', '.join(odd)))
                    continue
                when = '; '.join(l for l in p.labels if not l.startswith('ret '))
                viol.append(Violation('%s:%s' % (name, when[:200]), '%s: %s%s' % (name, why, ' (when %s)' % when[:300] if when else ''), p.site, p.labels))
                if len(viol) > 40:
                    return n, viol, und
    except (core.Undecided, terms.Unreadable) as e:
        und.append('%s: %s' % (name, str(e)[:200]))
    except (ValueError, KeyError, IndexError, TypeError, AttributeError, AssertionError) as e:
        und.append('%s: what it does could not be read (%s)' % (name, repr(e)[:200]))
    return n, viol, und


class Result:
    """what a function returns and what it leaves in its arguments: {head: term} for those that matter"""
    def __init__(self, ret, **outs):
        self.ret, self.outs = ret, outs


def differs(p, want, val, isrec):
    if not isinstance(want, Result):
        want = Result(want)
    if not same(p.ret, want.ret, val, isrec):
        return 'it returns %s instead of %s' % (show(p.ret)[:300], show(want.ret)[:300])
    for h, t in want.outs.items():
        got = next((o for o in p.outs if o[0] in 'ar' and o[1] == h), None)
        if got is None or not same(got, t, val, isrec):
            return 'it leaves %s instead of %s' % (show(got)[:300] if got else 'nothing', show(t)[:300])
    return None


# ---------------------------------------------------------------------------------------------------------------------------- tokens
KINDS = list(OPERATORS) + ['ParamPositional', 'Whitespace', 'Literal', 'Name']
DELIMITERS = {'Newline', 'ParenOpen', 'ParenClose', 'Semi', 'Amp', 'Less', 'Great', 'Pipe', 'AndIf', 'OrIf', 'DSemi', 'DLess', 'DGreat', 'GreatAnd', 'LessAnd',
              'DLessDash', 'Clobber', 'LessGreat', 'Whitespace'}


def text_of(cx, t):
    """the source text of a token, a term"""
    k, _ = cx.case(t, KINDS)
    if k == 'ParamPositional':
        d, _ = cx.case(cx.part(t, k, 0), DIGITS)
        return S('$%d' % DIGITS.index(d))
    if k in OPERATORS:
        return S(OPERATORS[k])
    if k in ('Whitespace', 'Literal', 'Name'):
        return cx.part(t, k, 0)
    raise core.Undecided('a token kind %s that is not known' % k)


def length(t):
    return I(len(t[1].encode())) if t[0] == 's' else V(t[1] + '.len')


def tok_is_empty(cx):
    t = length(text_of(cx, cx.arg('self')))
    if t[0] == 'i':
        return I(0)
    if same(cx.path.ret, A('Eq', t, I(0)), cx.val):
        return cx.path.ret
    for f in (A('Lt', t, I(1)), A('Le', t, I(0)), A('Eq', I(0), t)):
        if same(cx.path.ret, f, cx.val):
            return cx.path.ret
    return I(int(cx.compare('Eq', t, 0)))


def is_delimiter(cx):
    k, _ = cx.case(cx.arg('self'), KINDS)
    if k not in KINDS:
        raise core.Undecided('a token kind %s that is not known' % k)
    return I(int(k in DELIMITERS))


def as_num(cx):
    d, _ = cx.case(cx.arg('self'), DIGITS)
    return I(DIGITS.index(d))


def from_num(cx):
    v = cx.val.get('self')
    if v is None or v == 'other' and not set(range(10)) <= cx.path.never.get('self', set()):
        no = cx.path.never.get('self', set())
        cx.path.never['self'] = no | set(range(10))
        raise Need('self', [str(i) for i in range(10) if i not in no] + ['other'])
    if v == 'other' or int(v) > 9:
        return A('None')
    return A('Some', A(DIGITS[int(v)]))


def pos_new(cx):
    return R('SourcePos', byte=I(0), line=I(1), col=I(1))


def pos_advance(cx):
    t = cx.arg('arg1')
    k, _ = cx.case(t, KINDS)
    txt = text_of(cx, t)
    n = length(txt)
    me = cx.arg('self')
    byte = A('Add', sub(me, 'byte'), n)
    if k == 'Newline':
        return Result(T(), SourcePos=R('SourcePos', byte=byte, line=A('Add', sub(me, 'line'), I(1)), col=I(1)))
    if txt[0] == 's':
        return Result(T(), SourcePos=R('SourcePos', byte=byte, line=sub(me, 'line'), col=A('Add', sub(me, 'col'), n)))
    lines = ('a', 'count', [txt, S('\\x0a')])
    if cx.compare('Eq', lines, 0):
        got = next((o for o in cx.path.outs if o[0] == 'r' and o[1] == 'SourcePos'), None)
        line = sub(me, 'line')
        if got and got[2].get('line') == A('Add', line, lines):
            line = A('Add', line, lines)
        return Result(T(), SourcePos=R('SourcePos', byte=byte, line=line, col=A('Add', sub(me, 'col'), n)))
    return Result(T(), SourcePos=R('SourcePos', byte=byte, line=A('Add', sub(me, 'line'), lines), col=ANY))


def pos_tabs(cx):
    me, n = cx.arg('self'), cx.arg('arg1')
    return Result(T(), SourcePos=R('SourcePos', byte=A('Add', sub(me, 'byte'), n), line=sub(me, 'line'), col=A('Add', sub(me, 'col'), n)))


TOKENS = {
    'tok.as_str': lambda cx: text_of(cx, cx.arg('self')),
    'tok.len': lambda cx: length(text_of(cx, cx.arg('self'))),
    'tok.is_empty': tok_is_empty,
    'tok.is_word_delimiter': is_delimiter,
    'tok.fmt': lambda cx: Result(A('Ok', T()), fmt=A('fmt', text_of(cx, cx.arg('self')))),
    'pos.as_num': as_num,
    'pos.into': as_num,
    'pos.from_num': from_num,
}
POSITIONS = {'srcpos.new': pos_new, 'srcpos.default': pos_new, 'srcpos.advance': pos_advance, 'srcpos.advance_tabs': pos_tabs,
             'srcpos.fmt': lambda cx: Result(A('Ok', T()), fmt=A('fmt', A('cat', V('self.line'), S(':'), V('self.col'))))}

# -------------------------------------------------------------------------------------------------------------------------- messages
PARAMS = {'At': '$@', 'Star': '$*', 'Pound': '$#', 'Question': '$?', 'Dash': '$-', 'Dollar': '$$', 'Bang': '$!'}
PARAMKINDS = list(PARAMS) + ['Positional', 'Var']


def fmt(*parts):
    return Result(A('Ok', T()), fmt=A('fmt', A('cat', *parts)))


def param_fmt(cx):
    me = cx.arg('self')
    k, _ = cx.case(me, PARAMKINDS)
    if k in PARAMS:
        return fmt(S(PARAMS[k]))
    x = sub(me, k, 0)
    if k == 'Var':
        return fmt(S('${'), x, S('}'))
    return fmt(S('$'), x) if cx.compare('Le', x, 9) else fmt(S('${'), x, S('}'))


ERRORS = ['BadFd', 'BadIdent', 'BadSubst', 'Unmatched', 'IncompleteCmd', 'Unexpected', 'UnexpectedEOF', 'Custom']


def err_fmt(cx):
    """what a message must name, in which order is its own affair"""
    me = cx.arg('self')
    k, _ = cx.case(me, ERRORS)
    p = lambda *a: [sub(me, k, *a, 'line'), S(':'), sub(me, k, *a, 'col')]
    if k == 'BadFd':
        must = [p(0), p(1)]
    elif k == 'BadIdent':
        must = [[sub(me, k, 0)], p(1)]
    elif k == 'BadSubst' or k == 'Unmatched':
        must = [[text_of(cx, sub(me, k, 0))], p(1)]
    elif k == 'Unexpected':
        t = text_of(cx, sub(me, k, 0))
        must = [[S('\\n') if t == S('\n') else t], p(1)]
    elif k == 'IncompleteCmd':
        must = [[sub(me, k, 0)], p(1), [sub(me, k, 2)], p(3)]
    elif k == 'Custom':
        must = [[sub(me, k, 0)]]
    elif k == 'UnexpectedEOF':
        must = []
    else:
        raise core.Undecided('an error %s that is not known' % k)
    got = next((o[2] for o in cx.path.outs if o[0] == 'a' and o[1] == 'fmt'), None)
    if cx.path.panic is None:
        if cx.path.ret != A('Ok', T()) or not got:
            raise Wrong('it returns %s' % show(cx.path.ret))
        parts = got[0][2] if got[0][0] == 'a' and got[0][1] == 'cat' else got
        if not any(x[0] == 's' and x[1].strip() for x in parts) and k != 'Custom':
            raise Wrong('the message is empty')
        for m in must:
            if not contains(parts, m):
                raise Wrong('the message does not show %s: %s' % (show(A('cat', *m)), show(got[0])))
        # words and positions that belong together stand together
        if len(must) > 1:
            at = sorted((index(parts, m), i) for i, m in enumerate(must))
            order = [i for _, i in at]
            if k == 'BadFd' and order != [0, 1]:
                raise Wrong('the end is shown as the start: %s' % show(got[0]))
            if k == 'IncompleteCmd' and [{order[0], order[1]}, {order[2], order[3]}] == [{0, 3}, {1, 2}][::1 if 0 in order[:2] else -1]:
                raise Wrong('a word is shown with the position of another: %s' % show(got[0]))
    return cx.path.ret


def index(parts, m):
    return next((i for i in range(len(parts)) if parts[i:i + len(m)] == m), 0)


def contains(parts, m):
    if len(m) == 1 and m[0][0] == 's':
        return any(x[0] == 's' and m[0][1] in x[1] for x in parts)
    return any(parts[i:i + len(m)] == m for i in range(len(parts)))


def err_cause(cx):
    me = cx.arg('self')
    k, _ = cx.case(me, ERRORS)
    return A('Some', sub(me, k, 0)) if k == 'Custom' else A('None')


MESSAGES = {'param.fmt': param_fmt, 'err.fmt': err_fmt, 'err.cause': err_cause}

# -------------------------------------------------------------------------------------------------------------------------- builders
def b_word(wrap):
    return lambda t: R(wrap[1], _0=t) if wrap else t


def commands(cx, g):
    return cx.part(g, 'commands')


class Builders:
    """the reference of the default builder; wrap: the newtypes around commands and words"""

    def __init__(self, cmd, word):
        self.wc = (lambda t: R(cmd, _0=t)) if cmd else (lambda t: t)
        self.ww = (lambda t: R(word, _0=t)) if word else (lambda t: t)

    def table(self):
        return {m: getattr(self, m) for m in METHODS}

    def complete_command(self, cx):
        sep, _ = cx.case(cx.arg('arg3'), ['Semi', 'Amp', 'Newline', 'Other'])
        return A('Ok', self.wc(A('Job' if sep == 'Amp' else 'List', cx.arg('arg2'))))

    def and_or_list(self, cx):
        return A('Ok', R('AndOrList', first=cx.arg('arg1'), rest=A('xv', *[cx.part(x, 1) for x in cx.items(cx.arg('arg2'))])))

    def pipeline(self, cx):
        cmds = [cx.part(x, 1) for x in cx.items(cx.arg('arg2'))]
        if not cmds:
            raise Skip()
        bang = cx.flag(cx.arg('arg1'))
        if bang or len(cmds) > 1:
            return A('Ok', A('Pipe', I(int(bang)), A('xv', *cmds)))
        return A('Ok', A('Single', cmds[0]))

    def simple_command(self, cx):
        def first(x):
            k, _ = cx.case(x, ['Redirect', 'EnvVar'])
            return A('Redirect', sub(x, k, 0)) if k == 'Redirect' else A('EnvVar', sub(x, k, 0), sub(x, k, 1))
        return A('Ok', A('Simple', R('SimpleCommand', redirects_or_env_vars=A('xv', *[first(x) for x in cx.items(cx.arg('arg1'))]), redirects_or_cmd_words=cx.arg('arg2'))))

    def compound(self, kind, io):
        return A('Ok', R('CompoundCommand', kind=kind, io=io))

    def brace_group(self, cx):
        return self.compound(A('Brace', commands(cx, cx.arg('arg1'))), cx.arg('arg2'))

    def subshell(self, cx):
        return self.compound(A('Subshell', commands(cx, cx.arg('arg1'))), cx.arg('arg2'))

    def pair(self, cx, g):
        return R('GuardBodyPair', guard=commands(cx, cx.part(g, 'guard')), body=commands(cx, cx.part(g, 'body')))

    def loop_command(self, cx):
        k, _ = cx.case(cx.arg('arg1'), ['While', 'Until'])
        return self.compound(A(k, self.pair(cx, cx.arg('arg2'))), cx.arg('arg3'))

    def option(self, cx, t, f):
        k, _ = cx.case(t, ['Some', 'None'])
        return A('None') if k == 'None' else A('Some', f(cx.part(t, 'Some', 0)))

    def if_command(self, cx):
        a = cx.arg('arg1')
        return self.compound(A('If', A('xv', *[self.pair(cx, x) for x in cx.items(cx.part(a, 'conditionals'))]),
                               self.option(cx, cx.part(a, 'else_branch'), lambda g: commands(cx, g))), cx.arg('arg2'))

    def for_command(self, cx):
        a = cx.arg('arg1')
        return self.compound(A('For', cx.part(a, 'var'), self.option(cx, cx.part(a, 'words'), lambda w: cx.part(w, 1)), commands(cx, cx.part(a, 'body'))), cx.arg('arg2'))

    def case_command(self, cx):
        a = cx.arg('arg1')
        arms = [R('PatternBodyPair', patterns=cx.part(x, 'patterns', 'pattern_alternatives'), body=commands(cx, cx.part(x, 'body'))) for x in cx.items(cx.part(a, 'arms'))]
        return self.compound(A('Case', cx.part(a, 'word'), A('xv', *arms)), cx.arg('arg2'))

    def compound_command_into_pipeable(self, cx):
        return A('Ok', A('Compound', cx.arg('arg1')))

    def function_declaration(self, cx):
        return A('Ok', A('FunctionDef', cx.arg('arg1'), cx.arg('arg3')))

    def comments(self, cx):
        return A('Ok', T())

    def redirect(self, cx):
        k, _ = cx.case(cx.arg('arg1'), ['Read', 'Write', 'ReadWrite', 'Append', 'Clobber', 'Heredoc', 'DupRead', 'DupWrite'])
        return A('Ok', A(k, sub(cx.arg('arg1'), k, 0), sub(cx.arg('arg1'), k, 1)))

    # words: adjacent literals, adjacent single quotes and adjacent double quotes are joined, a sequence of one is that one
    SIMPLE = ['Literal', 'Escaped', 'Param', 'Star', 'Question', 'SquareOpen', 'SquareClose', 'Tilde', 'Colon', 'CommandSubst', 'Subst']

    def literal(self, cx, x):
        k, _ = cx.case(x, self.SIMPLE)
        return cx.part(x, 'Literal', 0) if k == 'Literal' else None

    def join_simple(self, cx, xs):
        out = []
        for x in xs:
            if out:
                a = self.literal(cx, out[-1])
                b = self.literal(cx, x) if a is not None else None
                if a is not None and b is not None:
                    out[-1] = A('Literal', A('cat', a, b))
                    continue
            out.append(x)
        return out

    def join_words(self, cx, ws):
        out = []
        for w in ws:
            k = cx.case(w, None)[0]
            p = cx.case(out[-1], None)[0] if out else None
            if k == p == 'SingleQuoted':
                out[-1] = A(k, A('cat', cx.part(out[-1], k, 0), cx.part(w, k, 0)))
            elif k == p == 'DoubleQuoted':
                out[-1] = A(k, A('xv', *self.join_simple(cx, cx.items(cx.part(out[-1], k, 0)) + cx.items(cx.part(w, k, 0)))))
            elif k == p == 'Simple':
                both = self.join_simple(cx, [cx.part(out[-1], k, 0), cx.part(w, k, 0)])
                out[-1:] = [A(k, x) for x in both]
            else:
                out.append(w)
        return out

    def param(self, cx, p):
        k, _ = cx.case(p, PARAMKINDS)
        return A(k, cx.part(p, k, 0)) if k in ('Positional', 'Var') else A(k)

    BINARY = ['Pow', 'Mult', 'Div', 'Modulo', 'Add', 'Sub', 'ShiftLeft', 'ShiftRight', 'Less', 'LessEq', 'Great', 'GreatEq', 'Eq', 'NotEq', 'BitwiseAnd', 'BitwiseXor',
              'BitwiseOr', 'LogicalAnd', 'LogicalOr']
    NAMED = ['Var', 'Literal', 'PostIncr', 'PostDecr', 'PreIncr', 'PreDecr']
    UNARY = ['UnaryPlus', 'UnaryMinus', 'LogicalNot', 'BitwiseNot']

    def arith(self, cx, a):
        k, _ = cx.case(a, self.BINARY + self.NAMED + self.UNARY + ['Ternary', 'Assign', 'Sequence'])
        rec = lambda i: ('a', 'REC', [cx.part(a, k, i, 0)])
        if k in self.NAMED:
            return ('a', k, [cx.part(a, k, 0)])
        if k in self.UNARY:
            return ('a', k, [rec(0)])
        if k in self.BINARY:
            return ('a', k, [rec(0), rec(1)])
        if k == 'Ternary':
            return ('a', k, [rec(0), rec(1), rec(2)])
        if k == 'Assign':
            return ('a', k, [cx.part(a, k, 0), rec(1)])
        if k == 'Sequence':
            return ('a', k, [A('xv', *[('a', 'REC', [x]) for x in cx.items(cx.part(a, k, 0))])])
        raise core.Undecided('an arithmetic expression %s that is not known' % k)

    WITHWORD = ['Default', 'Assign', 'Error', 'Alternative', 'RemoveSmallestSuffix', 'RemoveLargestSuffix', 'RemoveSmallestPrefix', 'RemoveLargestPrefix']

    def simple(self, cx, x):
        """-> term; an error of a nested word is raised as Failed"""
        k, _ = cx.case(x, self.SIMPLE)
        if k in ('Literal', 'Escaped'):
            return A(k, cx.part(x, k, 0))
        if k == 'Param':
            return A(k, self.param(cx, cx.part(x, k, 0)))
        if k == 'CommandSubst':
            return A('Subst', A('Command', commands(cx, cx.part(x, k, 0))))
        if k != 'Subst':
            return A(k)
        s = cx.part(x, k, 0, 0)
        k, _ = cx.case(s, self.WITHWORD + ['Command', 'Len', 'Arith'])
        if k == 'Command':
            return A('Subst', A('Command', commands(cx, cx.part(s, k, 0))))
        if k == 'Len':
            return A('Subst', A('Len', self.param(cx, cx.part(s, k, 0))))
        if k == 'Arith':
            return A('Subst', A('Arith', self.option(cx, cx.part(s, k, 0), lambda a: self.arith(cx, a))))
        if k not in self.WITHWORD:
            raise core.Undecided('a substitution %s that is not known' % k)
        colon = k in ('Default', 'Assign', 'Error', 'Alternative')
        out = [cx.part(s, k, 0)] if colon else []
        out.append(self.param(cx, cx.part(s, k, len(out))))
        out.append(self.option(cx, cx.part(s, k, len(out)), lambda w: self.nested(cx, w)))
        return A('Subst', ('a', k, out))

    def nested(self, cx, w):
        if cx.call('B.word', w) == 'Err':
            raise Failed()
        return V('B.word.Ok')

    def word(self, cx):
        w = cx.arg('arg1')
        k, _ = cx.case(w, None)
        if k == 'Single':
            ws = [cx.part(w, k, 0)]
            if cx.case(ws[0], None)[0] == 'DoubleQuoted':
                ws = [A('DoubleQuoted', A('xv', *self.join_simple(cx, cx.items(cx.part(ws[0], 'DoubleQuoted', 0)))))]
        else:
            ws = self.join_words(cx, cx.items(cx.part(w, k, 0)))
        out = []
        try:
            for x in ws:
                k, _ = cx.case(x, None)
                if k == 'SingleQuoted':
                    out.append(A(k, cx.part(x, k, 0)))
                elif k == 'DoubleQuoted':
                    out.append(A(k, A('xv', *[self.simple(cx, y) for y in cx.items(cx.part(x, k, 0))])))
                else:
                    out.append(A(k, self.simple(cx, cx.part(x, k, 0))))
        except Failed:
            return A('Err', V('B.word.Err'))
        return A('Ok', self.ww(A('Single', out[0]) if len(out) == 1 else A('Concat', A('xv', *out))))


class Failed(Exception):
    pass


METHODS = ['complete_command', 'and_or_list', 'pipeline', 'simple_command', 'brace_group', 'subshell', 'loop_command', 'if_command', 'for_command', 'case_command',
           'compound_command_into_pipeable', 'function_declaration', 'comments', 'word', 'redirect']
ARITY = {'complete_command': 4, 'and_or_list': 2, 'pipeline': 2, 'simple_command': 2, 'brace_group': 2, 'subshell': 2, 'loop_command': 3, 'if_command': 2, 'for_command': 2,
         'case_command': 2, 'compound_command_into_pipeable': 1, 'function_declaration': 3, 'comments': 1, 'word': 1, 'redirect': 1}


def forwarding(m):
    def f(cx):
        r = cx.call('B.' + m, *[V('arg%d' % (i + 1)) for i in range(ARITY[m])])
        return A(r, V('B.%s.%s' % (m, r)))
    return f


DEFAULT = {}
for _o, _c, _w in (('core', None, None), ('rc', 'TopLevelCommand', 'TopLevelWord'), ('arc', 'AtomicTopLevelCommand', 'AtomicTopLevelWord')):
    for _m, _f in Builders(_c, _w).table().items():
        DEFAULT['%s.%s' % (_o, _m)] = _f
OTHERS = {}
for _m in METHODS:
    OTHERS['empty.' + _m] = lambda cx: A('Ok', T())
    OTHERS['mut.' + _m] = forwarding(_m)
    OTHERS['box.' + _m] = forwarding(_m)


def run(r, table):
    recs = core.records(list(table))
    per = []
    for name, ref in table.items():
        try:
            with core.limited(60):
                n, v, u = check(name, recs[name], ref)
        except core.Undecided as e:
            n, v, u = 0, [], ['%s: %s' % (name, e)]
        per.append({'function': name, 'paths': n, 'explored_states': recs[name].get('states', 0), 'result': 'differs' if v else 'undecided' if u else 'equal'})
        r.viol += v
        r.undecided += sorted(set(u))[:5]
    r.cov.setdefault('functions', []).extend(per)
    r.cov['paths_compared'] = sum(p['paths'] for p in r.cov['functions'])
    r.cov['explored_states'] = sum(p['explored_states'] for p in r.cov['functions'])
