#!/usr/bin/env python3
"""Development tool: confirms planted bugs and records them under seeded/, and shows which checks catch them.

  plant.py confirm FILE.py [id...]   FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], inputs=[..] | main='..')]
  plant.py matrix [id...]            which checks raise an alarm for which recorded bug
  plant.py quiet FILE.py [id...]     FILE.py defines EDITS = [dict(id, edits)]: every check must stay quiet on these
"""
import importlib.util, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SCRATCH', '/tmp/mr')
E = dict(os.environ, RUSTUP_TOOLCHAIN='1.77.2-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
E.pop('RUSTFLAGS', None)

DEMO_SH = '''#!/bin/bash
# Builds and runs main.rs against the crate in the current directory and compares what it prints.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[dependencies]\\nconch-parser = { path = "%s" }\\n[workspace]\\n' "$PWD" > "$d/Cargo.toml"
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" || exit 2
timeout 60 cargo run -q --offline > "$d/out.txt" 2> "$d/err.txt"
rc=$?
diff "$here/expected.txt" "$d/out.txt" > "$d/diff.txt"
same=$?
if [ $rc -ne 0 ] || [ $same -ne 0 ]; then
  tail -n 5 "$d/err.txt"; head -n 20 "$d/diff.txt"
  rm -rf "$d"
  exit 1
fi
rm -rf "$d"
exit 0
'''
MAIN = '''extern crate conch_parser;
use conch_parser::lexer::Lexer;
use conch_parser::parse::DefaultParser;

fn main() {
    let inputs: &[&str] = &[
%s    ];
    for i in inputs {
        println!("{:?}", i);
        for (n, c) in DefaultParser::new(Lexer::new(i.chars())).into_iter().enumerate() {
            println!("  {:?}", c);
            if n > 50 { println!("  ..."); break; }
        }
    }
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(W):
        subprocess.run(['cp', '-a', '/repo', W], check=True)
    sh(['git', '-C', W, 'checkout', '-q', '--', '.'])
    a = sh(['git', '-C', W, 'rev-parse', 'HEAD']).stdout
    b = sh(['git', '-C', '/repo', 'rev-parse', 'HEAD']).stdout
    if a != b:
        shutil.rmtree(W)
        subprocess.run(['cp', '-a', '/repo', W], check=True)


def apply(edits):
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: text occurs %d times: %s' % (f, s.count(old), old[:80])
        open(p, 'w').write(s.replace(old, new))
    return None


def tests():
    e = dict(E, CARGO_TARGET_DIR=W + '/target')
    r = sh(['timeout', '100', 'cargo', 'test', '--workspace', '--no-fail-fast', '--offline'], cwd=W, env=e)
    bad = re.findall(r'^test (\S+).* \.\.\. FAILED', r.stdout, re.M)
    if r.returncode != 0 and not bad:
        bad = ['(does not build) ' + '\n'.join(l for l in r.stdout.splitlines() if l.startswith('error'))[:400]]
    return bad


def demo(d):
    return sh(['bash', os.path.join(d, 'demo.sh')], cwd=W).returncode


def load(f):
    sp = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def checks(verbose=True):
    e = dict(os.environ, REPO=W)
    r = sh([sys.executable, os.path.join(V, 'sa', 'all.py')], env=e)
    return r.stdout


def confirm(b):
    fresh()
    d = os.path.join('/tmp', 'plant-' + b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    main = b.get('main') or MAIN % ''.join('        %s,\n' % json.dumps(i, ensure_ascii=False) for i in b['inputs'])
    open(d + '/main.rs', 'w').write(main)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    open(d + '/expected.txt', 'w').write('')
    # the expected output is that of the unchanged tree
    t = '/tmp/plant-run'
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t + '/src')
    shutil.copy(d + '/main.rs', t + '/src/main.rs')
    open(t + '/Cargo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2018"\n[dependencies]\nconch-parser = { path = "%s" }\n[workspace]\n' % W)
    r = subprocess.run(['cargo', 'run', '-q', '--offline'], cwd=t, env=dict(E, CARGO_TARGET_DIR=t + '/target'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return 'the demonstration does not run on the unchanged tree: ' + r.stderr[-600:]
    open(d + '/expected.txt', 'w').write(r.stdout)
    if demo(d) != 0:
        return 'the demonstration fails on the unchanged tree'
    e = apply(b['edits'])
    if e:
        return e
    diff = sh(['git', '-C', W, 'diff']).stdout
    bad = tests()
    if bad:
        return 'tests fail: %s' % bad[:4]
    if demo(d) == 0:
        return 'the demonstration passes with the change'
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    out = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    shutil.rmtree(d)
    return None


def main():
    mode = sys.argv[1]
    if mode == 'confirm':
        for b in load(sys.argv[2]).BUGS:
            if sys.argv[3:] and b['id'] not in sys.argv[3:]:
                continue
            e = confirm(b)
            hits = ''
            if e is None or 'demonstration passes' in e:
                hits = ' '.join(re.findall(r'VIOLATION property=(\S+)', checks()))
            print('%-28s %s %s  caught by: %s' % (b['id'], b['property'], e or 'confirmed', hits), flush=True)
        fresh()
    elif mode == 'matrix':
        for i in sorted(os.listdir(V + '/seeded')):
            if sys.argv[2:] and i not in sys.argv[2:]:
                continue
            fresh()
            p = os.path.join(V, 'seeded', i)
            r = sh(['git', '-C', W, 'apply', p + '/patch.diff'])
            if r.returncode:
                print(i, 'does not apply')
                continue
            o = checks()
            hits = re.findall(r'VIOLATION property=(\S+)', o)
            m = json.load(open(p + '/meta.json'))
            print('%-28s %s %s  caught by: %s' % (i, m['property'], 'ok' if m['property'] in hits else 'MISSED', ' '.join(hits)), flush=True)
            if os.environ.get('VERBOSE'):
                print(o)
        fresh()
    elif mode == 'quiet':
        for b in load(sys.argv[2]).EDITS:
            if sys.argv[3:] and b['id'] not in sys.argv[3:]:
                continue
            fresh()
            e = apply(b['edits'])
            if e:
                print(b['id'], e)
                continue
            bad = tests()
            o = checks()
            hits = re.findall(r'VIOLATION property=(\S+)', o)
            und = sorted(set(re.findall(r'^undecided: (\w+)', o, re.M)))
            print('%-28s %s  alarms: %s  undecided: %s' % (b['id'], 'TESTS FAIL %s' % bad[:3] if bad else 'tests pass', ' '.join(hits) or 'none', ' '.join(und) or 'none'), flush=True)
            if hits and os.environ.get('VERBOSE'):
                print(o[:6000])
        fresh()


main()
