#!/usr/bin/env python3
"""Development self-test: applies one small source change at a time to a scratch
copy of the repository and shows what the analyser says about it.
usage: mut.py [PROP ...]   reads selftest/mutants/*.txt
File format, per mutant:
  ### PROP bad|ok  file  title
  <<<
  old text
  ===
  new text
  >>>            (several blocks may follow, optionally preceded by '@ file')
"""
import sys, os, re, shutil, subprocess, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
KC = os.environ.get('KC', '/tmp/kc')
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0', GOSUMDB='off')

def parse(path):
    out = []
    cur = None
    mode = None
    for ln in open(path, encoding='utf-8'):
        l = ln.rstrip('\n')
        if mode is None and l.startswith('### '):
            f = l[4:].split(None, 3)
            cur = dict(props=f[0].split(','), kind=f[1], file=f[2], title=f[3] if len(f) > 3 else '', eds=[])
            out.append(cur)
            curfile = cur['file']
        elif mode is None and l.startswith('@ '):
            curfile = l[2:].strip()
        elif mode is None and l == '<<<':
            mode = 'old'; old = []; new = []
        elif mode == 'old' and l == '===':
            mode = 'new'
        elif mode == 'new' and l == '>>>':
            cur['eds'].append((curfile, '\n'.join(old), '\n'.join(new))); mode = None
        elif mode == 'old': old.append(l)
        elif mode == 'new': new.append(l)
    return out

def run(m, work, only=None):
    saved = {}
    try:
        for f, o, n in m['eds']:
            p = os.path.join(work, f)
            s = open(p, encoding='utf-8').read()
            saved.setdefault(p, s)
            if s.count(o) < 1:
                return 'NOMATCH ' + repr(o[:60])
            s = s.replace(o, n, 1)
            open(p, 'w', encoding='utf-8').write(s)
        r = subprocess.run(['go', 'build', './...'], cwd=work, env=ENV, capture_output=True, text=True)
        if r.returncode:
            return 'NOBUILD ' + r.stderr[:400]
        res = []
        bad = False
        for pr in m['props']:
            if only and pr not in only: continue
            r = subprocess.run([KC, '-prop', pr, '-noevidence', '-repo', work], capture_output=True, text=True, timeout=900)
            viol = [l for l in r.stdout.split('\n') if l.startswith('  [')]
            res.append((pr, r.returncode, viol))
            if m['kind'] == 'bad' and r.returncode != 1: bad = True
            if m['kind'] == 'ok' and r.returncode != 0: bad = True
        txt = '; '.join('%s=%s %s' % (p, rc, (v[0][:150] if v else '')) for p, rc, v in res)
        return ('WRONG ' if bad else 'fine  ') + txt
    finally:
        for p, s in saved.items():
            open(p, 'w', encoding='utf-8').write(s)

def main():
    import threading, queue
    want = set(sys.argv[1:])
    q = queue.Queue()
    lock = threading.Lock()
    for path in sorted(glob.glob(os.path.join(HERE, 'mutants', '*.txt'))):
        for m in parse(path):
            if want and not (want & set(m['props'])) and not any(w in m['title'] for w in want):
                continue
            q.put(m)
    def worker():
        work = tempfile.mkdtemp(prefix='mut')
        shutil.rmtree(work)
        shutil.copytree(os.environ.get('BASE', '/repo'), work, ignore=shutil.ignore_patterns('.git'))
        try:
            while True:
                try: m = q.get_nowait()
                except queue.Empty: return
                pw = [w for w in want if w in m['props']]
                r = run(m, work, pw)
                with lock:
                    print('%-4s %-12s %s: %s' % (m['kind'], ','.join(m['props']), m['title'], r), flush=True)
        finally:
            shutil.rmtree(work)
    ts = [threading.Thread(target=worker) for _ in range(int(os.environ.get('JOBS', '6')))]
    for t in ts: t.start()
    for t in ts: t.join()
main()
