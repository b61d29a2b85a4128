#!/usr/bin/env python3
"""mk.py [-t] [id...]  writes seeded/<id> from table.py and verifies it: demo passes on the unchanged tree, fails with the patch,
the patched tree builds and passes the stable tests (unless -t). Each seed works on a copy of /repo bound over /repo in a
mount and network namespace of its own, so that several run at once and nothing reaches the real tree.
mk.py -c [id...]  runs the check of each seed's property against it (and the ones given as id:Cnn)."""
import os, sys, json, subprocess, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); S = '/tmp/w/seedtrees'
T = {}
def seed(id, prop, edits, needs, breaks, demo, flags='', libs=''):
    assert id not in T, id
    T[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, libs=libs)
exec(open(H + '/table.py').read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors='replace', **k)
LO = "python3 -c 'import socket,fcntl,struct;s=socket.socket();fcntl.ioctl(s,0x8914,struct.pack(\"16sh14x\",b\"lo\",0x49))'"
def ns(tree, cmd, extra=''): # a private /repo, a private network
    return sh("unshare -mn bash -c '" + ("mount --bind %s /repo && %s %s && cd /repo && %s" % (tree, LO, extra, cmd)).replace("'", "'\\''") + "'")
def tree(id):
    w = '%s/%s' % (S, id)
    if os.path.exists(w): shutil.rmtree(w)
    os.makedirs(S, exist_ok=True); shutil.copytree('/repo', w, symlinks=True)
    return w
def build(id):
    s = T[id]; w = tree(id)
    for f, a, b in s['edits']:
        p = w + '/' + f; x = open(p).read(); n = x.count(a)
        if n != 1: return w, None, 'edit matches %d times in %s: %r' % (n, f, a)
        open(p, 'w').write(x.replace(a, b))
    d = sh('git diff', cwd=w).stdout; sh('git checkout -- .', cwd=w)
    o = V + '/seeded/' + id
    if os.path.exists(o): shutil.rmtree(o)
    os.makedirs(o); open(o + '/patch.diff', 'w').write(d)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)
    inc = '' if '//plain' in s['demo'] else '#include "demo.h"\n'
    if inc: shutil.copy(H + '/demo.h', o)
    if '//tcp' in s['demo']: inc = '#include "tcp.h"\n'; open(o + '/tcp.h', 'w').write('#include "demo.h"\n' + open(H + '/tcp.h').read())
    if '//sh\n' in s['demo']: pass
    body = s['demo'].lstrip('\n'); pre = ''.join(l + '\n' for l in body.split('\n') if l.startswith('#define')) # definitions come first
    open(o + '/demo.cpp', 'w').write(pre + inc + '\n'.join(l for l in body.split('\n') if not l.startswith('#define') and l not in ('//tcp', '//plain')))
    open(o + '/demo.sh', 'w').write(open(H + '/demo.sh.in').read().replace('@FLAGS@', s['flags']).replace('@LIBS@', s['libs'])); os.chmod(o + '/demo.sh', 0o755)
    return w, o, ''
def last(r): return r.stdout.strip().split('\n')[-1][:220]
def verify(id, tests=True):
    w, o, e = build(id); out = []
    if not o: return id, 'BAD', [e]
    try:
        rs = [ns(w, 'bash %s/demo.sh' % o) for _ in range(3)]; good = not any(r.returncode for r in rs)
        out.append('clean: %s %s' % ([r.returncode for r in rs], '' if good else last([r for r in rs if r.returncode][0])))
        r = sh('git apply %s/patch.diff' % o, cwd=w)
        if r.returncode: return id, 'BAD', ['patch does not apply ' + r.stdout]
        rs = [ns(w, 'bash %s/demo.sh' % o) for _ in range(5)]; good = good and all(r.returncode not in (0, 2, 124) for r in rs)
        out.append('patched: %s %s' % ([r.returncode for r in rs], last(rs[0])))
        if tests:
            t = ns(w, 'bash /opt/vp/test.sh /tmp/w/seedtest-%s.json >/dev/null 2>&1; cat /tmp/w/seedtest-%s.json' % (id, id))
            try: j = json.loads(t.stdout[t.stdout.index('{'):])
            except ValueError: j = {'passed': []}
            miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in j['passed']]; good = good and not miss
            out.append('tests: %d stable ones fail %s' % (len(miss), miss[:4]))
        return id, 'good' if good else 'BAD', out
    finally: shutil.rmtree(w, ignore_errors=True)
def catch(idp):
    id, p = (idp.split(':') + [None])[:2]; p = p or T[id]['prop']; w = tree(id + '-c'); v = w + '.verif'
    if os.path.exists(v): shutil.rmtree(v)
    shutil.copytree(V, v, symlinks=True, ignore=shutil.ignore_patterns('.git', 'replays', 'seeded', '.build', '__pycache__'))
    try:
        r = sh('git apply %s/seeded/%s/patch.diff' % (V, id), cwd=w)
        if r.returncode: return idp, 'BAD', [r.stdout]
        t = ns(w, 'cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s' % p, extra='&& mount --bind %s /verif' % v)
        ls = [l for l in t.stdout.split('\n') if l and not l.startswith('KNOWN')]
        return idp, {0: 'MISSED', 1: 'caught'}.get(t.returncode, 'ERROR rc %d' % t.returncode), [l[:200] for l in ls[-3:]]
    finally: shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(T); jobs = 1 if '-c' in sys.argv else 6
with cf.ThreadPoolExecutor(jobs) as ex:
    for id, st, out in ex.map(catch if '-c' in sys.argv else (lambda i: verify(i, '-t' not in sys.argv)), ids):
        print('%-7s %s' % (st, id)); [print('        ' + l) for l in out]; sys.stdout.flush()
