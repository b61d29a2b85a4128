#!/usr/bin/env python3
"""Runs the check of one property: builds its units from /repo's working tree, runs them, judges what the monitors reported.

usage: check.py <ID> [--unit NAME] [--case N] [--keep]
environment: VERIF_SEED, VERIF_TIER (quick | thorough), VERIF_REPO (default /repo)
exit: 0 held, 1 violated (a VIOLATION line), 2 the check itself failed
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'harness'))
import units as U

REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
LIGHT = int(os.environ.get('VERIF_LIGHT', '40'))
BUILD = os.path.join(V, '.build')
REPLAYS = os.path.join(V, 'replays')

SAN = {
    'asan': '-fsanitize=address',
    'asan+ubsan': '-fsanitize=address,bounds,signed-integer-overflow,shift,pointer-overflow,return,bool,enum,unreachable -fno-sanitize-recover=all',
    'tsan': '-fsanitize=thread',
    'none': '',
}
ENV = {
    'ASAN_OPTIONS': 'exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:symbolize=1:strict_string_checks=0:quarantine_size_mb=64',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'exitcode=97:halt_on_error=1:second_deadlock_stack=1:detect_deadlocks=0:suppressions=' + os.path.join(V, 'harness', 'tsan.supp'),
}

def log(*a):
    print(*a, flush=True)

_srch = None
def source_hash():
    global _srch
    if _srch is None:
        h = hashlib.sha256()
        for root in [os.path.join(REPO, x) for x in ('include', 'file_common', 'file_server', 'file_client')] + [os.path.join(V, 'harness')]:
            for d, ds, fs in os.walk(root):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith(('.h', '.cpp', '.hpp', '.inc')):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, 'rb').read())
        _srch = h.hexdigest()
    return _srch

def build(u):
    src = os.path.join(V, 'harness', u['src'])
    cmd = [u.get('cxx', 'g++'), '-std=' + u.get('std', 'gnu++14'), u.get('opt', '-O1'), '-g1', '-fno-omit-frame-pointer', '-w', '-pthread']
    cmd += SAN[u.get('san', 'asan')].split()
    cmd += ['-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-I' + os.path.join(V, 'harness'), '-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_CHRONO_HEADER_ONLY']
    for d in u.get('defs', []):
        cmd.append('-D' + d)
    if u.get('perturb'):
        cmd += ['-DVH_PERTURB', '-finstrument-functions', '-finstrument-functions-exclude-file-list=/usr/include,/usr/lib,harness/']
    cmd += u.get('flags', [])
    cmd += [src, '-o', '@OUT@']
    if u.get('wrap'):
        cmd += ['-Wl,' + ','.join('--wrap=' + w for w in u['wrap'])]
    cmd += ['-lboost_system', '-lboost_thread', '-lboost_atomic', '-lboost_filesystem'] + u.get('libs', [])
    key = hashlib.sha256((' '.join(cmd) + source_hash()).encode()).hexdigest()[:24]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, u['name'] + '-' + key)
    if not os.path.exists(exe):
        tmp = exe + '.tmp%d' % os.getpid()
        for f in os.listdir(BUILD):  # drop older builds of this unit
            if re.match(re.escape(u['name']) + r'-[0-9a-f]{24}$', f):
                try:
                    if time.time() - os.path.getmtime(os.path.join(BUILD, f)) > 600: os.unlink(os.path.join(BUILD, f))
                except OSError: pass
        r = subprocess.run([tmp if c == '@OUT@' else c for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout[-6000:]
        os.replace(tmp, exe)
    return exe, ''

STOP = {'at': 0, 'quick': False} # set when an unlisted violation was found (quick tier): the other runs need not go on for long

def run(u, exe, start, cases, work, tag, single=None, timeout=None):
    out = os.path.join(work, tag + '.out'); cur = os.path.join(work, tag + '.cur'); hs = os.path.join(work, tag + '.hash'); err = os.path.join(work, tag + '.err')
    for f in (out, cur, hs): 
        if os.path.exists(f): os.unlink(f)
    scratch = os.path.join(work, tag + '.d'); os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ); env.update(ENV)
    env.update({'VH_OUT': out, 'VH_CUR': cur, 'VH_HASHES': hs, 'VH_SEED': str(SEED), 'VH_TIER': TIER, 'VH_UNIT': u['name'], 'VH_START': str(start), 'VH_CASES': str(cases), 'VH_SCRATCH': scratch, 'VH_REPO': REPO})
    env.update(u.get('env', {}))
    if single is not None: env['VH_CASE'] = str(single)
    limit = timeout or u.get('timeout', 330 if TIER == 'quick' else 7200)
    t0 = time.time(); res = {'unit': u['name'], 'viol': [], 'end': None, 'inconclusive': None, 'case': None, 'err': err}
    with open(err, 'wb') as ef:
        p = subprocess.Popen([exe] + u.get('args', []), stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
        rc = None; stopped = False
        while True:
            try:
                rc = p.wait(timeout=1); break
            except subprocess.TimeoutExpired:
                if time.time() - t0 > limit: break
                if STOP['at'] and time.time() - STOP['at'] > 15: stopped = True; break
        try: os.killpg(p.pid, 9)
        except OSError: pass
        p.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    res['rc'] = rc; res['wall'] = time.time() - t0
    if os.path.exists(cur):
        b = open(cur, 'rb').read(16)
        if len(b) == 16: res['case'] = struct.unpack('QQ', b)[0] - 1
    if os.path.exists(out):
        for l in open(out, errors='replace'):
            try: j = json.loads(l)
            except ValueError: continue
            if 'v' in j: res['viol'].append((j['v'], j['detail'], j['case']))
            elif 'end' in j: res['end'] = j
            elif 'inconclusive' in j: res['inconclusive'] = j['inconclusive']
    res['hashes'] = set()
    if os.path.exists(hs):
        b = open(hs, 'rb').read(); res['hashes'] = set(struct.unpack('%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    if stopped and not res['viol']:
        res['state'] = 'stopped'; return res # a violation was found elsewhere, this run is not needed any more
    if rc == 0 and not res['viol'] and res['end'] and res['end']['end'] == 'done':
        res['state'] = 'ok'
    elif res['viol']:
        res['state'] = 'violation'
    elif rc is None or rc == 20:
        res['state'] = 'inconclusive'; res['inconclusive'] = res['inconclusive'] or 'time limit of the run'
    elif rc in (96,):
        res['state'] = 'error'
    else:
        txt = open(err, errors='replace').read()
        res['viol'].append((crash_key(rc, txt), crash_detail(txt), res['case'])); res['state'] = 'violation'
    return res

def crash_key(rc, txt):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', txt)
    if m: kind = 'asan:' + m.group(1)
    elif 'runtime error:' in txt:
        m = re.search(r'runtime error: ([^\n]*)', txt); kind = 'ubsan:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:60].strip().replace(' ', '_')
    elif 'WARNING: ThreadSanitizer' in txt:
        m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', txt); kind = 'tsan:' + m.group(1).strip().replace(' ', '_')
    elif re.search(r'Assertion [`\'](.*?)\' failed', txt):
        m = re.search(r'(\w+\.\w+):\d+:.*Assertion [`\'](.*?)\' failed', txt); kind = 'assert:' + (m.group(1) if m else '?')
    elif 'terminate called' in txt: kind = 'uncaught-exception'
    else: kind = 'crash:rc%s' % rc
    fn = [f for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (.*?) (?:/|\()', txt) if 'st_asio_wrapper' in f]
    if fn: kind += '@' + re.sub(r'<.*', '', fn[0].replace('st_asio_wrapper::', ''))[:60]
    return kind.replace(' ', '_')

def crash_detail(txt):
    for pat in (r'ERROR: AddressSanitizer.*', r'runtime error:.*', r'WARNING: ThreadSanitizer.*', r'.*Assertion .*', r'terminate called.*(?:\n.*what.*)?'):
        m = re.search(pat, txt)
        if m: return m.group(0)[:400]
    return txt[-400:]

def known_findings(prop):
    r = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', l.strip())
            if m and m.group(1) == prop: r.append((m.group(2), m.group(3)))
    return r

def main():
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--unit'); ap.add_argument('--case', type=int); ap.add_argument('--cases', type=int); ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(); prop = a.prop; t0 = time.time()
    units = [dict(u) for u in U.units_for(prop, TIER)]
    if a.unit: units = [u for u in units if re.fullmatch(a.unit, u['name'])]
    if not units: log('no units for', prop); return 2
    work = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid())); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    known = known_findings(prop); known_hit = {}; viols = []; errors = []; results = []; inconc = []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex, cf.ThreadPoolExecutor(LIGHT) as light: # light: units which mostly wait
            running = []
            def go(u):
                exe, msg = build(u)
                if exe is None:
                    errors.append('unit %s does not build:\n%s' % (u['name'], msg)); return []
                u['exe'] = exe
                if a.case is not None:
                    return [(u, 0, 1, a.case, u['name'])]
                n = a.cases or u['cases']; sh = min(u.get('shards', 1), n); per = [(n * i // sh, n * (i + 1) // sh) for i in range(sh)]
                return [(u, s, e - s, None, '%s.%d' % (u['name'], i)) for i, (s, e) in enumerate(per)]
            built = {ex.submit(go, u): u for u in units}
            pend = set()
            for f in cf.as_completed(built):
                for (u, s, n, single, tag) in f.result():
                    pend.add((light if u.get('light') else ex).submit(run, u, u['exe'], s, n, work, tag, single))
            umap = {u['name']: u for u in units}
            for f in cf.as_completed(pend):
                r = f.result(); results.append(r)
                if TIER == 'quick' and not STOP['at'] and any(not any(re.fullmatch(x[0], '%s/%s' % (r['unit'], v[0])) for x in known) for v in r['viol']): STOP['at'] = time.time()
        # inconclusive runs: once more, alone, on the case that did not end
        def once_more(ir):
            i, r = ir; u = umap[r['unit']]; log('unit %s inconclusive (%s) at case %s; running that case again' % (r['unit'], r['inconclusive'], r['case']))
            return r, run(u, u['exe'], 0, 1, work, '%s.again%d' % (r['unit'], i), r['case'] if r['case'] is not None else 0, timeout=160)
        todo = [] if STOP['at'] else [r for r in results if r['state'] == 'inconclusive'][:12]
        with cf.ThreadPoolExecutor(4) as ex:
            for r, again in ex.map(once_more, enumerate(todo)):
                again['again'] = True; results.append(again)
                if again['state'] == 'inconclusive':
                    again['viol'].append(('hang', 'the case does not end, twice: %s' % again['inconclusive'], r['case'])); again['state'] = 'violation'
                elif again['state'] == 'ok':
                    inconc.append(r)
        for r in results:
            if r['state'] == 'error': errors.append('unit %s: harness error rc %s: %s' % (r['unit'], r['rc'], open(r['err'], errors='replace').read()[-1500:]))
            seen = set()
            for key, detail, case in r['viol']:
                full = '%s/%s' % (r['unit'], key)
                k = [x for x in known if re.fullmatch(x[0], full)]
                if k: known_hit[k[0][0]] = detail; continue
                if full in seen: continue
                seen.add(full); viols.append((r, full, detail, case))
        evals = sum(r['end']['evaluations'] for r in results if r['end']); hashes = set()
        counters = {}; samples = []; rules = []
        for r in results:
            hashes |= {(r['unit'].split('.')[0], h) for h in r['hashes']}
            if not r['end']: continue
            for k, v in r['end']['counters'].items():
                if k.startswith('max_'): counters[k] = max(counters.get(k, 0), v)
                else: counters[k] = counters.get(k, 0) + v
            if r['end']['rule'] and r['end']['rule'] not in rules: rules.append(r['end']['rule'])
        for u in units:
            for r in results:
                if r['unit'] == u['name'] and r['end'] and r['end']['samples']:
                    samples.append({'unit': u['name'], 'case': r['end']['samples'][0]}); break
        ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': U.LEVEL.get(prop, 'exploration'),
              'coverage': {'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': ' | '.join(rules), 'samples': samples[:12],
                           'events_observed': counters, 'units': [{'unit': u['name'], 'sanitizer': u.get('san', 'asan'), 'evaluations': sum(r['end']['evaluations'] for r in results if r['unit'] == u['name'] and r['end']),
                           'wall_s': round(max([r['wall'] for r in results if r['unit'] == u['name']] or [0]), 1)} for u in units],
                           'inconclusive_runs': len(inconc)},
              'assumptions': U.ASSUME.get(prop, []) , 'wall_s': round(time.time() - t0, 1), 'violations': len(viols)}
        if not (a.unit or a.case is not None):
            os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
            with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in known: log('KNOWN-FINDING: property=%s %s%s' % (prop, k[1] or k[0], '' if k[0] in known_hit else ' (not met in this run)'))
        if viols:
            os.makedirs(REPLAYS, exist_ok=True)
            r, full, detail, case = viols[0]
            rp = os.path.join(REPLAYS, '%s-%s-%d.txt' % (prop, r['unit'], int(time.time())))
            with open(rp, 'w') as f:
                f.write('property: %s\nseed: %d\ntier: %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s --unit %s --case %s\n\n' % (prop, SEED, TIER, SEED, TIER, V, prop, r['unit'], case))
                for rr, fu, de, ca in viols: f.write('violation: %s (case %s)\n  %s\n' % (fu, ca, de))
                f.write('\noutput of the failing run:\n' + open(r['err'], errors='replace').read()[-20000:])
            for rr, fu, de, ca in viols[:6]: log('  %s: %s (case %s)' % (fu, de[:500], ca))
            log('VIOLATION property=%s replay=%s' % (prop, rp)); return 1
        if errors:
            for e in errors: log(e)
            return 2
        if not evals or not hashes:
            log('nothing was observed'); return 2
        need = U.NEED.get(prop, {})
        if not (a.unit or a.case is not None or a.cases):
            for k, v in need.items():
                if counters.get(k, 0) < v:
                    log('too little observed: %s=%d, need %d' % (k, counters.get(k, 0), v)); return 2
        log('%s held: %d executions, %d distinct, events %s, %.1f s' % (prop, evals, len(hashes), json.dumps(counters), time.time() - t0))
        return 0
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
