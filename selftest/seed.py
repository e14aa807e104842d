#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from selftest/seeds/<id>.txt and confirms it in a scratch copy.
usage: seed.py [ID ...]
File format:
  property: C04
  needs: ...
  breaks: ...
  pkg: .            (package directory of the demonstration)
  then mutant blocks ('@ file', '<<<' old '===' new '>>>'), then
  --- test
  Go test file (in package), its tests are the demonstration
"""
import sys, os, re, shutil, subprocess, glob, json, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
KC = os.environ.get('KC', '/tmp/kc')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0', GOSUMDB='off')
BASE = '056167a'
DEMO = '''#!/bin/bash
# Demonstration: runs demo_test.go.txt in the package under test (cwd is the repository).
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp) || exit 3
trap 'rm -f -- "$o"' EXIT
printf '{"Replace": {"%%s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$(cd %(pkg)s && pwd)" "$d" > "$o"
go test -overlay "$o" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./%(pkg)s
'''

def parse(path):
    head, blocks, test = {}, [], None
    mode = None; cur = None; f = None
    for l in open(path, encoding='utf-8').read().split('\n'):
        if test is not None: test.append(l); continue
        if mode is None:
            if l == '--- test': test = []
            elif l.startswith('@ '): f = l[2:].strip()
            elif l == '<<<': mode = 'old'; old, new = [], []
            elif ':' in l:
                k, v = l.split(':', 1); head[k.strip()] = v.strip()
        elif mode == 'old':
            if l == '===': mode = 'new'
            else: old.append(l)
        elif l == '>>>':
            blocks.append((f, '\n'.join(old), '\n'.join(new))); mode = None
        else: new.append(l)
    return head, blocks, '\n'.join(test)

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def main():
    ids = sys.argv[1:] or [os.path.basename(p)[:-4] for p in sorted(glob.glob(HERE + '/seeds/*.txt'))]
    for i in ids:
        head, blocks, test = parse(f'{HERE}/seeds/{i}.txt')
        out = f'/verif/seeded/{i}'
        os.makedirs(out, exist_ok=True)
        pkg = head.get('pkg', '.')
        open(out + '/demo_test.go.txt', 'w').write(test)
        open(out + '/demo.sh', 'w').write(DEMO % dict(pkg=pkg)); os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': head['property'], 'needs': head['needs'], 'what_it_breaks': head['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        w = tempfile.mkdtemp(prefix='seed'); work = w + '/repo'
        shutil.copytree('/repo', work, symlinks=True)
        msg = []
        r = sh(['bash', out + '/demo.sh'], work)
        if r.returncode: msg.append('DEMO FAILS ON CLEAN\n' + (r.stdout + r.stderr)[-1500:])
        for f, o, n in blocks:
            p = work + '/' + f; s = open(p, encoding='utf-8').read()
            if s.count(o) != 1: msg.append('NOMATCH(%d) %r' % (s.count(o), o[:60])); continue
            open(p, 'w', encoding='utf-8').write(s.replace(o, n))
        d = sh(['git', 'diff', '--no-color'], work).stdout
        open(out + '/patch.diff', 'w').write(d)
        # removed lines have to be original ones
        orig = foreign = 0
        for f in set(b[0] for b in blocks):
            bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], work).stdout.split('\n')
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? \+\d+(?:,\d+)? @@.*$', sh(['git', 'diff', '-U0', '--', f], work).stdout, re.M):
                a = int(h.group(1)); c = int(h.group(2) or 1)
                for k in range(a, a + c):
                    c0 = bl[k-1].lstrip('^')
                    if c0.startswith(BASE): orig += 1
                    else: foreign += 1
        if not orig or foreign: msg.append('lines: original %d, ours %d' % (orig, foreign))
        r = sh(['go', 'build', './...'], work)
        if r.returncode: msg.append('NOBUILD ' + r.stderr[:600])
        r = sh(['go', 'test', '-vet=off', '-count=1', '.', './diana', './cmd/...'], work)
        if r.returncode: msg.append('TESTS FAIL ' + r.stdout[-600:])
        r = sh(['bash', out + '/demo.sh'], work)
        if r.returncode == 0: msg.append('DEMO PASSES WITH BUG')
        elif 'FAIL: TestDemo' not in r.stdout and 'panic' not in r.stdout: msg.append('DEMO ERROR ' + (r.stdout + r.stderr)[-800:])
        c = sh([KC, '-prop', 'all' if os.environ.get('ALL') else head['property'], '-noevidence', '-repo', work], work)
        caught = re.findall(r'VIOLATION property=(\w+)', c.stdout)
        print('%-28s %s %-8s by %s  %s' % (i, head['property'], 'CAUGHT' if head['property'] in caught else 'MISSED', ','.join(caught), '; '.join(msg)), flush=True)
        shutil.rmtree(w)
main()
