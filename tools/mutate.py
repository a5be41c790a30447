#!/usr/bin/env python3
"""Runs checks against edited copies of the repository.

usage: mutate.py [-p PROP] [-n NAME] [FILE...]
Each file in tools/mutants defines MUTANTS = [(name, kind, props, edits)], where kind is
"bug" (every listed property must report a violation) or "keep" (all listed properties
must stay quiet; props "all" means every claimed property) and edits is a list of
(file, old, new) replacements.
"""
import concurrent.futures, json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = dict(os.environ, PATH='/opt/veriftools/go1.23.12/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly -buildvcs=false')

def claimed():
    return [c['property'] for c in json.load(open(ROOT + '/MANIFEST.json'))['checks']]

def run(m):
    name, kind, props, edits = m
    if props == 'all':
        props = claimed()
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', REPO + '/.', d], check=True)
        pk = set()
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read() if os.path.exists(p) else ''
            if old is None:
                s = new
            else:
                if s.count(old) < 1:
                    return name, 'BADEDIT ' + f + ': ' + old[:60]
                s = s.replace(old, new, 1)
            open(p, 'w').write(s)
            pk.add('./' + os.path.dirname(f))
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return name, 'NOBUILD ' + b.stderr[:300]
        res = []
        for p in props:
            ev = tempfile.mkdtemp(prefix='mutev-', dir='/tmp')
            if os.path.exists(ROOT + '/KNOWN_FINDINGS.txt'):
                shutil.copy(ROOT + '/KNOWN_FINDINGS.txt', ev)
            c = subprocess.run([ROOT + '/bin/idmverify', p], env=dict(ENV, VERIF_REPO=d, VERIF_ROOT=ev), capture_output=True, text=True)
            shutil.rmtree(ev)
            hit = c.returncode == 1 and ('VIOLATION property=' + p) in c.stdout
            if kind == 'bug':
                first = [l for l in c.stdout.splitlines() if ': rule ' in l]
                und = first and 'not decided' in first[0]
                res.append('%s %s %s' % ('caught' if hit else 'MISSED', p, ('UNDECIDED ' if und else '') + (first[0][:150] if first else '')))
            elif c.returncode:
                first = [l for l in c.stdout.splitlines() if ': rule ' in l]
                res.append('ALARM %s %s' % (p, first[:2]))
        return name, ' | '.join(res) or 'quiet'
    finally:
        shutil.rmtree(d)

def main():
    a = sys.argv[1:]
    prop = name = None
    files = []
    while a:
        x = a.pop(0)
        if x == '-p': prop = a.pop(0)
        elif x == '-n': name = a.pop(0)
        else: files.append(x)
    if not files:
        md = ROOT + '/tools/mutants'
        files = sorted(os.path.join(md, f) for f in os.listdir(md) if f.endswith('.py'))
    ms = []
    for f in files:
        for m in runpy.run_path(f)['MUTANTS']:
            if name and name not in m[0]:
                continue
            if prop:
                if m[2] != 'all' and prop not in m[2]:
                    continue
                m = (m[0], m[1], [prop], m[3])
            ms.append(m)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for (n, r), m in zip(ex.map(run, ms), ms):
            ok = 'MISSED' not in r and 'ALARM' not in r and 'BADEDIT' not in r and 'NOBUILD' not in r
            bad += not ok
            print(('  ' if ok else '! ') + '%-28s %-4s %s' % (n, m[1], r), flush=True)
    print('%d of %d as expected' % (len(ms) - bad, len(ms)))

main()
