"""The properties and how each is decided."""
import json, os, re, shutil, tempfile
import core, dfa, funcs, lexer, rules, structure
from engine import SIZE, Run, newly_lost, spec
from rules import Violation

COMPOUND = ['compound_command', 'compound_command_internal', 'if_command', 'loop_command', 'for_command', 'case_command', 'brace_group', 'subshell', 'subshell_internal', 'do_group']
LISTS = ['complete_command', 'complete_command_with_leading_comments', 'and_or_list', 'pipeline', 'command', 'command_group', 'command_group_internal']
SIMPLE = ['simple_command', 'redirect_list']
REDIR = ['redirect']
HEREDOC = ['redirect_heredoc']
WORDS = ['word', 'word_preserve_trailing_whitespace', 'word_preserve_trailing_whitespace_raw_with_delim', 'word_interpolated_raw']
PARAMS = ['parameter', 'parameter_raw', 'parameter_inner', 'parameter_substitution_raw', 'parameter_substitution_body_raw', 'parameter_substitution_word_raw']
ARITH = ['arithmetic_substitution', 'arith_assig', 'arith_ternary', 'arith_logical_or', 'arith_logical_and', 'arith_bitwise_or', 'arith_bitwise_xor',
         'arith_bitwise_and', 'arith_eq', 'arith_ineq', 'arith_shift', 'arith_add', 'arith_mult', 'arith_pow', 'arith_unary_misc', 'arith_post_incr', 'arith_var']
BACKTICK = ['backticked_command_substitution', 'backticked_raw']
FUNCTION = ['maybe_function_declaration', 'function_declaration', 'function_declaration_internal']
RESERVED = ['peek_reserved_token', 'peek_reserved_word', 'reserved_token', 'reserved_word']
NEWLINE = ['linebreak', 'newline']
BLANKS = ['skip_whitespace']
PRODUCTIONS = LISTS + SIMPLE + REDIR + HEREDOC + WORDS + PARAMS + ARITH + BACKTICK + FUNCTION + RESERVED + NEWLINE + BLANKS + COMPOUND
LEXER = ['Lexer', 'Lexer.size_hint']
FUNCS = {k: v for t in (funcs.TOKENS, funcs.POSITIONS, funcs.MESSAGES, funcs.DEFAULT, funcs.OTHERS) for k, v in t.items()}
LOOKAHEAD = ['TokenIter.new', 'TokenIter', 'TokenIterWrapper.Regular', 'TokenIterWrapper.Buffered']
BALANCED = ['Balanced.balanced', 'Balanced.single_quoted', 'Balanced.double_quoted', 'Balanced.backticked']
ITERATION = ['ParserIterator']
PARSER_API = {'parser.new': {'Parser{iter: stream<sub<symit(self)>>, builder: Default::default()}'},
              'parser.with_builder': {'Parser{iter: stream<sub<self>>, builder: arg1}'},
              'parser.pos': {'self.iter.pos()', 'self.iter.Regular.0.pos()', 'self.iter.Buffered.0.pos()'}}
WRAPPED = {'wrapper.token_iter_from_backticked_with_removed_backslashes': {'self.Regular.0.unescaped(arg1)', 'self.Buffered.0.unescaped(arg1)'}}
REMOVED = ['Remover.backticked_remove_backslashes', 'Removed.content', 'Removed.long']
ALL_RECORDS = PRODUCTIONS + LEXER + list(FUNCS) + list(PARSER_API) + list(WRAPPED) + ITERATION + LOOKAHEAD + BALANCED + REMOVED + ['effects']

SPECMETHOD = ('Every listed function is interpreted abstractly over its MIR, along all paths, with token streams, words and syntax trees as symbolic '
              'values; the set of its event sequences (tokens taken, productions called and how they ended, builder calls with their arguments, what is '
              'returned, under which look-ahead) is reduced to a minimal deterministic automaton and compared, by a product construction, with the '
              'specification automaton in spec/. A difference is reported with a shortest sequence of events leading to it and the source line.')


def grammar(names, classes=None, labels=None):
    def f(r):
        r.expl = SPECMETHOD
        # all others rest on what skip_whitespace skips
        r.automata(names if classes or labels else list(names) + BLANKS, classes=classes, labels=labels)
    return f


def values(api):
    """functions without cases of interest: each returns one of the given terms"""
    def f(r):
        recs = core.records(list(api))
        for name, want in api.items():
            rec = recs[name]
            if 'error' in rec:
                r.undecided.append('%s: %s' % (name, rec['error'][:200]))
                continue
            got = {}
            for f, t, l, c, site in rules.edges(rec):
                if l.startswith(('ret ', 'PANIC')):
                    got.setdefault(l[4:].split(' | ')[0] if l.startswith('ret ') else l, site)
            bad = sorted(set(got) - want)
            for l in bad[:3]:
                if '?' in l or 'Top' in l or not l:
                    r.undecided.append('%s: gives %s' % (name, l[:120]))
                else:
                    r.viol.append(Violation('%s:%s' % (name, l[:120]), '%s gives %s where %s is due' % (name, l[:120], ' or '.join(sorted(want))), got[l], []))
            r.cov.setdefault('functions', []).append({'function': name, 'explored_states': rec.get('states', 0), 'result': 'differs' if bad else 'equal'})
    return f


def also(*parts):
    """a property that rests on several parts of the crate: each part is decided in its own way"""
    def f(r):
        expl, funcs = [], []
        for part in parts:
            sub = Run(r.pid, r.tier)
            try:
                part(sub)
            except core.Undecided as e:
                sub.undecided.append(str(e))
            expl.append(sub.expl)
            funcs += sub.cov.pop('functions', [])
            for k, v in sub.cov.items():
                r.cov[k] = r.cov.get(k, 0) + v if isinstance(v, int) else r.cov.get(k, []) + v if isinstance(v, list) else v
            r.viol += sub.viol
            r.undecided += sub.undecided
        r.cov['functions'] = funcs
        r.expl = ' '.join(dict.fromkeys(expl))
    return f


def only(part, pattern):
    """the differences a part finds that concern this property"""
    def f(r):
        part(r)
        r.viol = [v for v in r.viol if re.search(pattern, v.text)]
    return f


def gate(r, name, rec, viol):
    """what is found only along paths the analysis can no longer tell apart decides nothing"""
    if all(v.sure for v in viol):
        return viol
    lost = [x for x in newly_lost(rec, spec(name) or {}) if ' branches on ' in x]
    if not lost:
        return viol
    r.undecided.append('%s: %s (%s)' % (name, [v for v in viol if not v.sure][0].text[:120], lost[0]))
    return [v for v in viol if v.sure]


def panic_freedom(r):
    r.expl = ('Every panic source (explicit panics, unwrap/expect, bounds checks, arithmetic checks, calls of the standard library that can panic) in '
              'the MIR of the listed functions and everything they call is an obligation: it is discharged when no abstract path reaches it.')
    todo = PRODUCTIONS + ['Lexer'] + [k for k in FUNCS if not k.endswith('.pipeline')]
    recs = core.records(todo)
    n = 0
    for name in todo:
        rec = recs[name]
        if 'error' in rec:
            r.undecided.append('%s: %s' % (name, rec['error'][:200]))
            continue
        k, v = rules.panics(rec, spec(name) or {})
        n += k
        v = gate(r, name, rec, v)
        r.viol += v
    r.cov['functions_analysed'] = [n for n in todo if 'error' not in recs[n]]
    r.cov['bodies_interpreted'] = sorted({f for x in recs.values() for f in x.get('inlined', [])})
    r.cov['explored_states'] = sum(x.get('states', 0) for x in recs.values())
    r.cov['reachable_panic_sources'] = n


def progress(r):
    r.expl = ('No cycle of the abstract state graph of a function, and no cycle of the call graph between productions, is free of an event that takes '
              'a token from the input; which outcomes of a production can come without taking one is computed as a fixpoint over all productions.')
    recs = core.records(PRODUCTIONS)
    for n in PRODUCTIONS:
        if 'edges' not in recs[n]:
            r.undecided.append('%s: %s' % (n, (recs[n].get('error') or recs[n].get('dfa_error'))[:200]))
    # what a production that could not be analysed does is then taken from its specification
    recs = {n: rec if 'edges' in rec else dict(spec(n), sites=[''], idle=[], edges=[e[:4] + [0] for e in spec(n)['edges']]) for n, rec in recs.items() if 'edges' in rec or spec(n)}
    st, v = rules.progress(recs)
    r.cov.update(st)
    for x in v:
        n = x.key.split(':')[1]
        r.viol += gate(r, n, recs[n], [x]) if x.key.startswith('idle:') else [x]
    rec = core.records(['Lexer'])['Lexer']
    if 'edges' not in rec:
        r.undecided.append('Lexer: %s' % (rec.get('error') or rec.get('dfa_error'))[:200])
    for labels, sites in rec.get('idle', []) if not rec.get('tops') and not rec.get('opaque') else []:
        r.viol.append(Violation('idle:Lexer:%s' % ';'.join(labels)[:120], 'a loop of the lexer takes no character (%s)' % ('; '.join(labels)[:300] or 'no event on it'), ', '.join(sites)[:200]))


def error_propagation(r):
    r.expl = ('In the automaton of every production, each event "call X, it failed" is followed by nothing but returning that very error (wrapped as '
              'the error type requires); each such event is an obligation.')
    recs = core.records(PRODUCTIONS)
    tot = 0
    for n in PRODUCTIONS:
        if 'edges' not in recs[n]:
            r.undecided.append('%s: %s' % (n, (recs[n].get('error') or recs[n].get('dfa_error'))[:200]))
            continue
        k, v = rules.error_propagation(recs[n])
        tot += k
        r.viol += gate(r, n, recs[n], v)
    r.cov['failing_call_events'] = tot


def conservation(r):
    r.expl = (SPECMETHOD + ' Only differences in what is handed to the builder, collected or returned count here. In addition the interpreter tracks the '
              'ownership of every syntax tree node, comment and word a production obtains, and reports the paths to a successful return on which one '
              'is dropped.')
    recs = r.automata(PRODUCTIONS, classes={'value', 'data', 'strict'})
    tot = 0
    for n in PRODUCTIONS:
        if newly_lost(recs[n], spec(n) or {}):
            continue
        ok = {a for a, _ in (spec(n) or {}).get('lost', [])}
        for lab, site in recs[n].get('lost', []):
            tot += 1
            if lab not in ok:
                r.viol.append(Violation('lost:%s:%s' % (n, lab), '%s drops a node it obtained: %s' % (n, lab), site))
    r.cov['dropping_paths_reviewed'] = tot


def object_dfa(r, name):
    """the automaton of an object under its most general client, or None"""
    rec = core.records([name])[name]
    info = {'function': name, 'explored_states': rec.get('states', 0), 'automaton_states': rec.get('n', 0), 'bodies': rec.get('inlined', [])}
    r.cov.setdefault('functions', []).append(info)
    if 'edges' not in rec:
        info['result'] = 'undecided'
        r.undecided.append('%s: %s' % (name, (rec.get('error') or rec.get('dfa_error') or '?')[:200]))
        return None
    with core.limited(120):
        d = dfa.Dfa(rec, dfa.Alphabet([rec]))
    d.unknown = sorted({'branches on %s in %s' % (t[2], t[0]) for t in rec.get('tops', [])} | {'calls %s, which has no model' % o for o in rec.get('opaque', [])})
    return d


ONECH = re.compile(r'\?(?:Eq|Ne)\((?:peek0|chr0),(\d+)\)=[01]$')


def one_char(v):
    """all decisions are about one character beyond ASCII, which is of the kind that the violation names"""
    ask = [x for x in v.trace if x.startswith('?')]
    ks = {ONECH.match(x).group(1) if ONECH.match(x) else '' for x in ask}
    if len(ks) != 1 or '' in ks:
        return False
    c = chr(int(ks.pop()))
    kind = 'a blank' if c.isspace() else 'a letter' if c.isalpha() else 'another character' if not c.isdigit() else '?'
    said = None
    for x in v.trace:
        if x.startswith('chr'):
            said = None
        elif x.startswith('?'):
            if said not in (None, x):
                return False
            said = x
    made = re.match('the characters (.*?)( end of input)? make a', v.text)
    if any('chr0' in x for x in ask):
        return ord(c) >= 128 and len(ask) == 1 and made is not None and re.sub(r"'.*?'| ", '', made.group(1)) == kind.replace(' ', '')
    return ord(c) >= 128 and any(w in v.text for w in (kind + ' follows', 'over ' + kind))


LOW = re.compile(r'\?(Eq|Ne|Lt|Le|Gt|Ge)\((\d+|trunc\((?:peek0|chr0)\)),(\d+|trunc\((?:peek0|chr0)\))\)=([01])$')
LOWEST = {}


def low_bytes(kind):
    """the low bytes of the characters beyond ASCII of a kind"""
    if not LOWEST:
        for i in list(range(128, 0xd800)) + list(range(0xe000, 0x30000)):
            c = chr(i)
            k = 'blank' if c.isspace() else 'letter' if c.isalpha() else 'digit' if c.isdigit() or c.isdecimal() or c.isnumeric() else 'character'
            LOWEST.setdefault(k, set()).add(i & 255)
    return LOWEST.get(kind.split(' ')[-1])


def one_byte(v):
    """all decisions are about the low bytes of characters beyond ASCII, and there are characters of these kinds with such bytes"""
    facts = {}
    for i, x in enumerate(v.trace):
        if not x.startswith('?'):
            continue
        m = LOW.match(x)
        if not m or m.group(2).isdigit() == m.group(3).isdigit():
            return False
        what = m.group(2) if m.group(3).isdigit() else m.group(3)
        at = [j for j, y in enumerate(v.trace) if y.startswith('chr') and (j > i if 'peek' in what else j < i)]
        if not at:
            return False
        facts.setdefault(at[0] if 'peek' in what else at[-1], []).append(m.groups())
    for j, fs in facts.items():
        of = low_bytes(v.trace[j])
        num = lambda s, b: int(s) if s.isdigit() else b
        if not of or not any(all(funcs.CMP[o](num(a, b), num(c, b)) == (w == '1') for o, a, c, w in fs) for b in of):
            return False
    return bool(facts)


def settle(r, name, d, viol, und):
    """violations count unless the analysis had to give up knowledge on the way"""
    r.undecided += ['%s: %s' % (name, u) for u in und]
    if d.unknown:
        r.undecided += ['%s: %s' % (name, u) for u in d.unknown[:5]]
        if viol:
            r.undecided.append('%s: %s, but the function %s' % (name, viol[0].text[:120], d.unknown[0]))
        return
    for v in viol:
        # how long something is can be anything, if nothing else is known of it
        size = {x for x in v.trace if SIZE.match(x[1:].rsplit('=', 1)[0]) and x.startswith('?')}
        lost = [x for x in v.trace if x.startswith('?') and (x not in size or len(size) > 1)]
        if lost and (one_char(v) or one_byte(v)):
            lost = []
        if lost:
            r.undecided.append('%s: %s, but only after %s' % (name, v.text[:120], lost[0][:100]))
        else:
            r.viol.append(v)


def lexing(which):
    def f(r):
        r.expl = ('The lexer is interpreted abstractly from its construction on, over every character stream, by a client that takes tokens until the end and '
                  'once more; its automaton of characters taken, texts extended and tokens yielded is run against ')
        r.expl += ('a definition of the token language written independently of it (operators by the longest match, $digit, runs of blanks, names, literals, '
                   'one character after a backslash): kind and extent of every token yielded.' if which == 0 else
                   'a ledger of the characters taken: each must be in exactly one token, in order, and the token must stand for exactly those characters.')
        d = object_dfa(r, 'Lexer')
        if d is None:
            return
        with core.limited(200):
            st, tok, loss, und = lexer.tokenization(d)
        r.cov.update(st)
        # a text cut into tokens has no character that is in none of them
        settle(r, 'Lexer', d, (tok + [v for v in loss if v.text not in {x.text for x in tok}], loss)[which], und)
    return f


def lexer_hint(r):
    r.expl = ('In the automaton of the object under a client that may ask for the size hint before any call of next, the announced bounds are compared with the '
              'least and the greatest number of items that can follow (as a distance, and relative to the characters that are still in the source).')
    d = object_dfa(r, 'Lexer.size_hint')
    if d is not None:
        with core.limited(200):
            st, v, und = lexer.hints(d)
        r.cov.update(st)
        settle(r, 'Lexer', d, v, und)


def client(names, what):
    """objects driven by a most general client that compares what they give with a reference"""
    def f(r):
        r.expl = what
        for name in names:
            d = object_dfa(r, name)
            if d is None:
                continue
            rec = d.rec
            viol = []
            far = rules.distances(rec)
            for f, t, l, c, site in rules.edges(rec):
                bad = l.startswith(('BAD ', 'PANIC', 'source asked'))
                pos = name == 'TokenIter.new' and l.startswith('pos ') and not re.match(r'pos \w*SourcePos\{byte: 0, line: 1, col: 1\}$', l)
                if bad and '?' in l:
                    r.undecided.append('%s: %s' % (name, l[:160]))
                elif bad or pos:
                    viol.append((far.get(f, 0), f, l, site))
            for labels, sites in rec.get('idle', []):
                viol.append((99, None, 'a call may never return', ', '.join(sites)[:200]))
            out = []
            for k, f, l, site in sorted(viol, key=lambda x: (x[0], x[2]))[:6]:
                out.append(Violation('%s:%s' % (name, l[:160]), '%s: %s' % (name, l[4:] if l.startswith('BAD ') else l), site, rules.path_to(rec, f) if f is not None else []))
            settle(r, name, d, out, [])
            r.cov['functions'][-1].update(result='differs' if out else 'agrees', operations=sorted({l.split(' ')[0] for l in rec['labels']}), edges=len(rec['edges']))
        r.cov['explored_states'] = sum(x.get('explored_states', 0) for x in r.cov['functions'])
    return f


ONE = {'complete_command()→Ok Some': 'yield Ok(complete_command.Ok.Some)', 'complete_command()→Err': 'yield Err(complete_command.Err)', 'complete_command()→Ok None': 'end'}


def iteration(r):
    r.expl = ('The iterator over a parser\'s commands is interpreted abstractly under a client that calls next any number of times, also after the end, with the parsing of one command '
              'as a single event; each step is followed in a reference. The constructors and pos() are interpreted on symbolic arguments and their result terms compared.')
    for name in ITERATION:
        d = object_dfa(r, name)
        if d is None:
            continue
        viol = []
        out = {}
        for f, t, l, c, site in rules.edges(d.rec):
            out.setdefault(f, []).append((l, t, site))
        seen, todo = {(0, 'idle', False)}, [(0, 'idle', False)]
        while todo:
            s, q, ended = todo.pop(0)
            for l, t, site in out.get(s, []):
                if l == 'next' and q in ('idle', 'over'):
                    n = 'asked' if q == 'idle' else 'asked after the end'
                elif l == 'ret' and q in ('idle', 'over'):
                    n = q
                elif q == 'asked' and l in ONE:
                    n = ONE[l]
                elif q == 'asked after the end' and l in ONE and ended:
                    # a parser at the end of its input says so again; what else it could give does not happen
                    if ONE[l] != 'end':
                        continue
                    n = 'end'
                elif q == 'asked after the end' and l == 'end':
                    n = 'over'
                elif q == l and q in ONE.values():
                    n = 'idle' if l.startswith('yield Ok') else 'over'
                else:
                    viol.append(Violation('%s:%s:%s' % (name, q, l[:120]), 'the iterator over commands: "%s" where %s is due' % (
                        l[:120], {'asked': 'the parsing of one command', 'asked after the end': 'the end again'}.get(q, '"%s"' % q)), site, rules.path_to(d.rec, s)))
                    continue
                e = ended or l.endswith('→Ok None')
                if (t, n, e) not in seen:
                    seen.add((t, n, e))
                    todo.append((t, n, e))
        for labels, sites in d.rec.get('idle', []):
            viol.append(Violation('%s:idle' % name, 'next() of the iterator over commands may never return', ', '.join(sites)[:200], []))
        settle(r, name, d, viol[:4], [])
        r.cov['functions'][-1].update(result='differs' if viol else 'agrees', edges=len(d.rec['edges']))
    values(PARSER_API)(r)
    r.cov['explored_states'] = sum(x.get('explored_states', 0) for x in r.cov['functions'])


SAYS = {'effect': 'uses %s', 'state': 'keeps state outside the values: %s', 'unsafe': 'has %s'}


def effects(r):
    r.expl = ('Every reference to a function in the MIR of every body of the crate (calls, function values, promoted constants), every static and every unsafe block, function and impl is listed; '
              'none may reach the environment, files, processes, threads, clocks, random numbers, shared or thread-local state, addresses or the order of a hash table, or be unsafe. '
              'Tokens, builders and their results come in only as values: the type parameters and the Builder trait of the parser.')
    rec = core.records(['effects'])['effects']
    if 'error' in rec:
        r.undecided.append(rec['error'][:300])
        return
    for kind, what, fn, site in rec['hits']:
        r.viol.append(Violation('effects:%s:%s:%s' % (kind, what, fn), '%s %s' % (fn, SAYS[kind] % what), site, []))
    r.cov.update(bodies_analysed=len(rec['bodies']), explored_states=len(rec['bodies']), function_references=rec['refs'], foreign_functions=rec['foreign'],
                 functions=[{'function': x} for x in rec['bodies']])


# a bound that does not hold, a trait that cannot be an object, a value of another type, a lifetime that is too short
BROKEN = {'E0277', 'E0038', 'E0308', 'E0310', 'E0597', 'E0515', 'E0521', 'E0271', 'E0599', 'E0282'}


def witnesses(r):
    r.expl = ('A crate of obligations (witness/src/lib.rs) is type-checked against the current source: each of its functions compiles only if the bound that it states holds, for all types its '
              'parameters stand for. A function the type checker refuses is a violation; one that names something that is gone is undecided.')
    src = os.path.join(core.VERIF, 'witness', 'src', 'lib.rs')
    text = open(src).read().split('\n')
    starts = [(i + 1, m.group(1)) for i, m in ((i, re.match(r'fn (\w+)', l)) for i, l in enumerate(text)) if m and ('_are_' in m.group(1) or '_can_' in m.group(1) or '_is_' in m.group(1) or '_need' in m.group(1) or '_take' in m.group(1))]
    tmp = tempfile.mkdtemp(prefix='conch-sa.')
    try:
        os.makedirs(os.path.join(tmp, 'w', 'src'))
        shutil.copy(src, os.path.join(tmp, 'w', 'src', 'lib.rs'))
        with open(os.path.join(tmp, 'w', 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nconch-parser = { path = %s }\n[workspace]\n' % json.dumps(core.REPO))
        e = core.env()
        e.update(RUSTFLAGS='--cap-lints allow', CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
        p = core.sh(['cargo', '+' + core.TOOLCHAIN, 'check', '--offline', '-q', '--message-format', 'json'], cwd=os.path.join(tmp, 'w'), env=e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    msgs = []
    for l in p.stdout.split('\n'):
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-message':
                msgs.append(m)
    bad = set()
    for m in msgs:
        d = m['message']
        if d['level'] != 'error' or not d['spans'] and not d.get('code'):
            continue
        if m['target']['name'] != 'witness':
            raise core.Undecided('the crate does not compile: %s' % d['message'][:200])
        line = min([s['line_start'] for s in d['spans'] if s['is_primary'] and s['file_name'].endswith('lib.rs')] or [0])
        name = [n for k, n in starts if k <= line][-1:] or ['?']
        where = ['%s:%d' % (s['file_name'].replace(core.REPO + '/', ''), s['line_start']) for c in d['children'] for s in c['spans'] if core.REPO in s['file_name'] or s['file_name'].startswith('src/parse')]
        code = (d.get('code') or {}).get('code', '')
        if code in BROKEN:
            if name[0] not in bad:
                notes = [c['message'] for c in d['children'] if c['message'].startswith(('required because', 'within', 'the trait'))]
                r.viol.append(Violation('witness:%s' % name[0], 'not so: %s (%s%s)' % (name[0].replace('_', ' '), d['message'][:200], '; ' + notes[0][:160] if notes else ''), where[0] if where else 'witness/src/lib.rs:%d' % line, notes))
            bad.add(name[0])
        else:
            r.undecided.append('%s: %s' % (name[0], d['message'][:200]))
    if p.returncode != 0 and not msgs:
        raise core.Undecided('the witnesses could not be checked: %s' % p.stdout[-300:])
    r.cov['functions'] = [{'function': n, 'result': 'refused' if n in bad else 'accepted'} for _, n in starts]
    r.cov['obligations'] = len(starts)
    r.cov['explored_states'] = len(starts)


def structural(r):
    r.expl = ('For every public type with an equality or a copy, written or derived, the body is interpreted abstractly on two symbolic values; each path (their kinds, which of their parts were found equal) '
              'must give what the definition of the type says: equal exactly if the kinds and all parts are. The conversions of the wrappers around whole commands and words are compared as terms.')
    structure.run(r)


def functions(table, only=None):
    def f(r):
        r.expl = ('Every listed function is interpreted abstractly over its MIR on symbolic arguments; each path gives the variants, lengths and comparisons it '
                  'assumes, the calls it makes, and its result as a term over the arguments. On each path the result must be that of an independent reference '
                  'function (sa/funcs.py) evaluated under the same assumptions.')
        funcs.run(r, {k: v for k, v in table.items() if only is None or only(k)})
    return f


def builds(*names):
    """methods of the default builder"""
    return functions(funcs.DEFAULT, lambda k: k in ['core.' + n for n in names])


LOOK = client(LOOKAHEAD, 'The token iterator is interpreted abstractly under its most general client (take, peek, look ahead several tokens and drop that, put tokens back, ask for '
              'the position after each of them, in any order, up to three tokens waiting); each answer is compared with a queue of the tokens and their positions.')
MATCHING = client(BALANCED, 'The iterator that sets aside what lies between delimiters is interpreted abstractly over every token stream, nested up to three deep; every token, '
                  'error, position and its end is compared with a reference transducer that keeps its own stack of delimiters.')
REMOVING = client(REMOVED, 'The iterators that remove backslashes inside backquotes are interpreted abstractly, the lazy one over every token stream, the collecting one over every '
                  'sequence of up to four tokens of the kinds that matter (five of those that matter for the removal); tokens, errors and positions are compared with a reference.')
ADVANCE = functions(funcs.POSITIONS, lambda k: k != 'srcpos.fmt')

CHECKS = {
    'C01': panic_freedom,
    'C02': also(progress, only(LOOK, 'may never return'), only(MATCHING, 'may never return|gives None where'), only(REMOVING, 'may never return|gives None where')),
    'C03': error_propagation,
    'C04': conservation,
    'C05': also(grammar(PRODUCTIONS, classes={'error'}), only(MATCHING, 'Err|error|Unmatched'), only(REMOVING, 'Err|error|Unmatched')),
    'C06': also(grammar(COMPOUND + ['command_group', 'command_group_internal', 'redirect_list']),
                builds('brace_group', 'subshell', 'loop_command', 'if_command', 'for_command', 'case_command')),
    'C07': also(grammar(LISTS + NEWLINE), builds('complete_command', 'and_or_list', 'pipeline')),
    'C08': also(grammar(SIMPLE + REDIR), builds('simple_command')),
    'C09': also(grammar(REDIR), builds('redirect')),
    'C10': also(grammar(HEREDOC + ['word_interpolated_raw']), LOOK, MATCHING, ADVANCE),
    'C11': also(grammar(WORDS), MATCHING, builds('word')),
    'C12': also(grammar(PARAMS), builds('word'), lexing(0)),
    'C13': also(grammar(ARITH), builds('word')),
    'C14': also(grammar(BACKTICK), REMOVING, values(WRAPPED)),
    'C15': also(grammar(FUNCTION), builds('function_declaration')),
    'C16': also(grammar(RESERVED), functions(funcs.TOKENS, lambda k: k == 'tok.is_word_delimiter')),
    'C17': grammar(NEWLINE),
    'C18': lexing(0),
    'C19': also(lexing(1), functions(funcs.TOKENS, lambda k: k in ('tok.as_str', 'tok.fmt'))),
    'C20': lexer_hint,
    'C21': also(LOOK, ADVANCE),
    'C22': MATCHING,
    'C23': also(REMOVING, values(WRAPPED)),
    'C24': functions(funcs.TOKENS),
    'C25': functions(funcs.DEFAULT, lambda k: not k.endswith('.word')),
    'C26': functions(funcs.DEFAULT, lambda k: k.endswith('.word')),
    'C27': also(iteration, grammar(['complete_command'])),
    'C28': functions(dict(funcs.MESSAGES, **{k: v for t in (funcs.TOKENS, funcs.POSITIONS) for k, v in t.items() if k in ('tok.fmt', 'srcpos.fmt')})),
    'C29': functions(funcs.POSITIONS),
    'C30': functions(funcs.OTHERS),
    'C31': effects,
    'C32': witnesses,
    'C33': structural,
}
