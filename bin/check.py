#!/usr/bin/env python3
"""Solver-based check of one property of LattE integrale: compiles /repo's current sources against the
symbolic NTL/GMP layer, explores every feasible path of each configuration of the property's harnesses,
lets z3 decide the obligations, replays every counterexample on a build against the real libraries."""
import re, sys, os, json, time, subprocess, tempfile, shutil, hashlib, threading, fcntl, fnmatch, signal
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'bin')); sys.dont_write_bytecode = True
import specs
Z = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
S = os.path.join(VERIF, 'sym'); L = REPO + '/code/latte'
JOBS = int(os.environ.get('SX_JOBS', '8'))
INC = ['-I/usr/include/4ti2', '-I/usr/include/x86_64-linux-gnu/4ti2', '-I' + REPO + '/code', '-I' + L]
DEF = ['-DHAVE_CONFIG_H', '-D__STDC_LIMIT_MACROS', '-D_4ti2_GMP_', '-DINSTALLDIR="/x"']
PRE = ['-include', S + '/include/sx_pre.h']
SYMF = ['-std=c++17', '-O1', '-w', '-fno-pie', '-DSX_SYMBOLIC'] + DEF + ['-I' + S + '/include'] + INC + ['-idirafter', S + '/include/sub'] + PRE
MEMF = ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern']
ASAN = 'detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_odr_violation=0:allocator_may_return_null=0:alloc_dealloc_mismatch=0'
COV = ['-fsanitize-coverage=func,trace-pc-guard']
REALF = ['-std=gnu++17', '-O2', '-w'] + DEF + ['-I' + S + '/include/real'] + INC + PRE
NOREAL = {'latte_relocatable'}

class Build:
    """Compiles and links; content-addressed cache when SX_CACHE names a directory (development only)."""
    def __init__(self, tmp):
        self.tmp = tmp; self.cache = os.environ.get('SX_CACHE'); self.hh = None; self.errors = {}; self.lock = threading.Lock()
    def headers_hash(self):
        if self.hh is None:
            h = hashlib.sha256()
            for root in (REPO + '/code', S):
                for d, dn, fn in sorted(os.walk(root)):
                    for f in sorted(fn):
                        if f.endswith(('.h', '.hpp')): p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
            self.hh = h.digest()
        return self.hh
    def compile(self, src, flags, cc, out):
        key = None
        if self.cache:
            h = hashlib.sha256(self.headers_hash()); h.update(repr((src, flags, cc)).encode()); h.update(open(src, 'rb').read())
            key = os.path.join(self.cache, h.hexdigest() + '.o')
            if os.path.exists(key): shutil.copy(key, out); return True
        r = subprocess.run([cc] + flags + ['-c', src, '-o', out], capture_output=True, text=True)
        if r.returncode: 
            with self.lock: self.errors[src] = r.stderr[-3000:]
            return False
        if key: os.makedirs(self.cache, exist_ok=True); shutil.copy(out, key + '.%d' % threading.get_ident()); os.rename(key + '.%d' % threading.get_ident(), key)
        return True
    def many(self, jobs):
        with ThreadPoolExecutor(JOBS) as ex: return list(ex.map(lambda j: self.compile(*j), jobs))

def oname(src, tag): return tag + '_' + src.replace('/', '_').replace('.cpp', '') + '.o'

def build_symbolic(b, harns, mem=()):
    mem = list(mem); SYMF = globals()['SYMF'] + mem; san = mem[:1]; glx = mem[1:2]
    d = os.path.join(b.tmp, 'sym'); os.makedirs(d)
    jobs = [(S + '/rt/sym.cpp', ['-std=c++17', '-O2', '-w', '-fno-pie', '-I' + Z + '/include'] + glx, 'clang++', d + '/e_sym.o'),
            (S + '/models/sx_bridge.cpp', ['-std=c++17', '-O1', '-w', '-fno-pie'], 'clang++', d + '/m_bridge.o')]
    for m in sorted(os.listdir(S + '/models')):
        if m.endswith('.cpp') and m != 'sx_bridge.cpp':
            jobs.append((S + '/models/' + m, SYMF + (['-Dprotected=public'] if m == 'sx_42.cpp' else []), 'clang++', d + '/m_' + m[:-4] + '.o'))
    for h in harns:
        jobs.append((S + '/h/' + h + '.cpp', SYMF + ['-I' + S + '/h'] + specs.HARNESS[h].get('flags', []) + (COV if specs.HARNESS[h].get('only') else []), 'clang++', d + '/h_' + h + '.o'))
    extra = {}
    for h in harns:
        for e in specs.HARNESS[h].get('src', []):
            src, fl = (e, []) if isinstance(e, str) else (e[0], list(e[1])); extra[src] = fl
    for f in specs.LIB: jobs.append((L + '/' + f + '.cpp', SYMF + COV, 'clang++', d + '/' + oname(f, 'l')))
    for f, fl in extra.items(): jobs.append((L + '/' + f + '.cpp', SYMF + COV + fl, 'clang++', d + '/' + oname(f, 'l')))
    jobs = [j for j in jobs if os.path.exists(j[0])]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    b.many(jobs)
    objs = [d + '/' + f for f in sorted(os.listdir(d))]
    lib = d + '/libl.a'; subprocess.run(['ar', 'rcs', lib] + [o for o in objs if os.path.basename(o).startswith('l_')], check=True)
    rest = [o for o in objs if os.path.basename(o)[:2] in ('e_', 'm_')]
    exes = {}
    def link(h):
        ho = d + '/h_' + h + '.o'; exe = d + '/' + h
        if not os.path.exists(ho): return
        r = subprocess.run(['clang++', '-no-pie'] + san + [ho, lib] + rest + ['-L' + Z + '/lib', '-lz3', '-Wl,-rpath,' + Z + '/lib', '-lntl', '-lgmpxx', '-lgmp', '-o', exe], capture_output=True, text=True)
        if r.returncode: b.errors['link ' + h] = r.stderr[-3000:]
        else: exes[h] = exe
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(link, harns))
    return exes

def build_real(b, harns, mem=()):
    mem = list(mem); REALF = globals()['REALF'] + mem; san = mem[:1]; glx = mem[1:2]
    d = os.path.join(b.tmp, 'real'); os.makedirs(d)
    jobs = [(S + '/rt/sym.cpp', ['-std=c++17', '-O2', '-w', '-I' + Z + '/include'] + glx, 'clang++', d + '/e_sym.o'),
            (S + '/rt/real_stubs.cpp', REALF, 'g++', d + '/e_stubs.o')]
    for h in harns: jobs.append((S + '/h/' + h + '.cpp', REALF + ['-I' + S + '/h'] + specs.HARNESS[h].get('flags', []), 'g++', d + '/h_' + h + '.o'))
    extra = {}
    for h in harns:
        for e in specs.HARNESS[h].get('src', []):
            src, fl = (e, []) if isinstance(e, str) else (e[0], list(e[1])); extra[src] = fl
    for f in specs.LIB: jobs.append((L + '/' + f + '.cpp', REALF, 'g++', d + '/' + oname(f, 'l')))
    for f, fl in extra.items(): jobs.append((L + '/' + f + '.cpp', REALF + fl, 'g++', d + '/' + oname(f, 'l')))
    jobs = [j for j in jobs if os.path.exists(j[0])]; jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    b.many(jobs)
    objs = [d + '/' + f for f in sorted(os.listdir(d))]
    lib = d + '/libl.a'; subprocess.run(['ar', 'rcs', lib] + [o for o in objs if os.path.basename(o).startswith('l_')], check=True)
    exes = {}
    for h in harns:
        exe = d + '/' + h
        r = subprocess.run(['g++'] + san + [d + '/h_' + h + '.o', lib, d + '/e_stubs.o', d + '/e_sym.o', '-lcddgmp', '-l4ti2gmp', '-lzsolve', '-lntl', '-lgmpxx', '-lgmp', '-L' + Z + '/lib', '-lz3', '-Wl,-rpath,' + Z + '/lib', '-lpthread', '-o', exe], capture_output=True, text=True)
        if r.returncode: b.errors['real link ' + h] = r.stderr[-3000:]
        else: exes[h] = exe
    return exes

def replay(exe, cand, tmp, limit=60, extra=()):
    cwd = tempfile.mkdtemp(dir=tmp)
    try:
        p = subprocess.Popen([exe, '--replay', cand] + list(extra), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        try: out, _ = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 'hang', ''
        out = out.decode('utf8', 'replace')
        return {0: 'ok', 1: 'violated', 10: 'abnormal', 3: 'outside'}.get(p.returncode, 'abnormal' if p.returncode < 0 else 'other %d' % p.returncode), out[-1500:]
    finally: shutil.rmtree(cwd, ignore_errors=True)

def known_findings():
    r = []
    fn = os.path.join(VERIF, 'known-findings.txt')
    for l in open(fn) if os.path.exists(fn) else []:
        l = l.strip()
        if not l.startswith('finding:'): continue
        head, _, text = l[8:].partition(' :: ')
        r.append((dict(x.split('=', 1) for x in head.split()), text))
    return r

def main():
    if sys.argv[1] == '--selftest': return selftest()
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    i = 2
    while i < len(sys.argv):
        if sys.argv[i] == '--tier': tier = sys.argv[i + 1]; i += 2
        elif sys.argv[i] == '--only': only = sys.argv[i + 1]; i += 2
        else: i += 1
    spec = specs.PROPS[prop]; t0 = time.time()
    budget = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    tmp = tempfile.mkdtemp(prefix='sxchk-%s-' % prop, dir=os.environ.get('SX_TMP', '/tmp'))
    try: return run(prop, spec, tier, seed, tmp, t0, budget, only)
    finally:
        if os.environ.get('SX_KEEP'): print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def run(prop, spec, tier, seed, tmp, t0, budget, only):
    cfgs = [c for c in spec['configs'](tier) if only is None or only in c['h'] + ' ' + c['c']]
    harns = sorted({c['h'] for c in cfgs})
    mem = MEMF if spec.get('memory') else []; lab = [x for l in spec.get('labels', []) for x in ('--only', l)]
    if mem: os.environ['ASAN_OPTIONS'] = ASAN
    b = Build(tmp); exes = build_symbolic(b, harns, mem)
    missing = [h for h in harns if h not in exes]
    if missing:
        for k, v in b.errors.items(): print('ERROR', k, '\n', v)
        print('no answer: the sources could not be encoded'); return 2
    tb = time.time() - t0
    known = known_findings()
    rfd, wfd = os.pipe(); fl = fcntl.fcntl(rfd, fcntl.F_GETFL); fcntl.fcntl(rfd, fcntl.F_SETFL, fl | os.O_NONBLOCK)
    os.write(wfd, b't' * JOBS); os.set_inheritable(rfd, True); os.set_inheritable(wfd, True)
    def take():
        while True:
            try:
                if os.read(rfd, 1): return
            except BlockingIOError: time.sleep(0.004)
    results = [None] * len(cfgs); t1 = time.time()
    def one(i):
        c = cfgs[i]; take()
        try:
            left = budget - (time.time() - t0)
            out = os.path.join(tmp, 'o%d' % i); os.makedirs(out)
            tl = min(left, c.get('time', 120 if tier == 'quick' else 600))
            if tl < 1: results[i] = dict(skipped=True); return
            cmd = [exes[c['h']], '--config', c['c'], '--out', out, '--tok', '%d,%d' % (rfd, wfd), '--time', '%.0f' % tl, '--max-paths', str(c.get('paths', 200000)), '--path-cpu', str(c.get('cpu', 60)), '--cands', str(c.get('cands', 6))] + lab
            for k, _ in known:
                if k.get('property') == prop and k.get('harness') == c['h'] and fnmatch.fnmatchcase(c['c'], k.get('config', '*')): cmd += ['--known', k['label']]
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, pass_fds=(rfd, wfd), start_new_session=True, cwd=out)
            try: p.wait(timeout=tl + 90)
            except subprocess.TimeoutExpired: pass
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
            try: st = json.loads(open(out + '/stats.json').read().replace('\\', '\\\\'))
            except Exception: st = None
            results[i] = dict(stats=st, out=out, wall=time.time() - t1)
        finally: os.write(wfd, b't')
    order = sorted(range(len(cfgs)), key=lambda i: -cfgs[i].get('w', 1))
    with ThreadPoolExecutor(max(JOBS * 2, 4)) as ex: list(ex.map(one, order))
    # ---- collect
    tot = {}; bad = []; cands = []; rows = []; cov = set(); cuts = {}; incomplete = []
    for c, r in zip(cfgs, results):
        if r.get('skipped'): incomplete.append(c['c'] + ' (not started: time budget)'); continue
        st = r['stats']
        if st is None: bad.append(c['c'] + ': engine produced no result'); continue
        for k, v in st.items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k == 'max_atoms' else tot.get(k, 0) + v
        reach = set(open(r['out'] + '/reach.txt').read().split('\n')) if os.path.exists(r['out'] + '/reach.txt') else set()
        reach.discard('')
        rows.append(dict(harness=c['h'], config=c['c'], note=c.get('note', ''), paths=st['paths'], obligations=st['obligations'], discharged=st['discharged'], cut=st['cut'], unknown=st['unknown'], queries=st['queries'], solver_s=round(st['solver_s'], 2), reached=sorted(reach)[:12]))
        if st['status'] != 0: bad.append(c['c'] + ': engine ended abnormally (status %s)' % st['status'])
        if st['obligations'] == 0 and st['aborted'] == 0 and st['candidates'] == 0 and not st['timeouts']: bad.append(c['c'] + ': vacuous (no obligation reached)')
        for w in c.get('reach', []):
            if w not in reach and st['candidates'] == 0 and st['aborted'] == 0: bad.append(c['c'] + ': witness "%s" not reached' % w)
        if st['budget'] or st['unknown'] or st['timeouts'] or st['discharged'] < st['obligations'] - st['candidates']: incomplete.append('%s (budget stops %d, undecided %d, path time-outs %d)' % (c['c'], st['budget'], st['unknown'], st['timeouts']))
        if os.path.exists(r['out'] + '/cov.txt'):
            for x in open(r['out'] + '/cov.txt').read().split(): cov.add((c['h'], int(x, 16)))
        if os.path.exists(r['out'] + '/cuts.txt'):
            for l in open(r['out'] + '/cuts.txt'): cuts[l.strip()] = cuts.get(l.strip(), 0) + 1
        for f in sorted(os.listdir(r['out'])):
            if f.startswith('cand-') or f.startswith('timeout-'): cands.append((c, os.path.join(r['out'], f)))
    # ---- replay
    viol = []; unrep = []; kf = []; rtime = time.time()
    if cands:
        real = build_real(b, sorted({c['h'] for c, _ in cands}), mem)
        miss = [h for h in {c['h'] for c, _ in cands} if h not in real]
        if miss:
            for k, v in b.errors.items(): print('ERROR', k, '\n', v)
            print('no answer: replay build failed'); return 2
        nhang = 0
        def rep(x):
            c, f = x; to = os.path.basename(f).startswith('timeout-')
            txt = open(f).read(); label = next((l[6:].strip() for l in txt.split('\n') if l.startswith('label ')), '?')
            res, out = replay(real[c['h']], f, tmp, 60, lab)
            return c, f, txt, label, res, out, to
        sel = []; per = {}
        for c, f in cands:
            k = (c['c'], 't' if os.path.basename(f).startswith('timeout-') else 'c'); per[k] = per.get(k, 0) + 1
            if per[k] <= (3 if k[1] == 't' else 60): sel.append((c, f))
        with ThreadPoolExecutor(JOBS) as ex: reps = list(ex.map(rep, sel))
        for c, f, txt, label, res, out, to in reps:
            if res in ('violated', 'abnormal') or (to and res == 'hang') or (not to and res == 'hang'):
                k = next(((k, t) for k, t in known if k.get('property') == prop and k.get('harness') == c['h'] and fnmatch.fnmatchcase(c['c'], k.get('config', '*')) and fnmatch.fnmatchcase(label, k.get('label', '')) and (k.get('result', res) == res)), None)
                if k: kf.append((k[1], c, txt)); continue
                viol.append((c, f, txt, label, res, out))
            else: unrep.append(dict(config=c['c'], label=label, replay=res, file=txt[:600]))
    for t in sorted({t for t, _, _ in kf}): print('KNOWN-FINDING: property=%s %s' % (prop, t))
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        c, f, txt, label, res, out = viol[0]
        dst = os.path.join(rd, '%s.txt' % prop)
        with open(dst, 'w') as o:
            o.write('# harness %s; replay: the same harness compiled against the real libraries, --replay THISFILE\n' % c['h']); o.write(txt); o.write('# replay result: %s\n' % res)
            o.write(''.join('# ' + l + '\n' for l in out.split('\n')))
            for v in viol[1:20]: o.write('# also: %s | %s | %s | %s\n' % (v[0]['h'], v[0]['c'], v[3], v[4]))
    # ---- functions encoded
    funcs = symbolize(exes, cov)
    coverage = dict(
        explanation=spec['explain'], configurations=len(rows), paths=int(tot.get('paths', 0)), paths_completed=int(tot.get('ended', 0)), paths_cut=int(tot.get('cut', 0)),
        obligations=int(tot.get('obligations', 0)), discharged=int(tot.get('discharged', 0)), discharged_by_normal_form=int(tot.get('normal_form', 0)),
        solver_queries=int(tot.get('queries', 0)), smt_queries=int(tot.get('smt', 0)), bitvector_queries=int(tot.get('bv', 0)), undecided_queries=int(tot.get('unknown', 0)), forks=int(tot.get('forks', 0)),
        solver_s=round(tot.get('solver_s', 0), 2), budget_stops=int(tot.get('budget', 0)), path_timeouts=int(tot.get('timeouts', 0)),
        functions_encoded=len(funcs), functions=funcs[:400], bounds=spec['bounds'], cuts=cuts, incomplete=incomplete, unreproduced_candidates=unrep[:20], candidates_replayed=len(cands),
        samples=rows, build_s=round(tb, 1), known_findings=sorted({t for t, _, _ in kf}), encode_failures=sorted(b.errors))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'other'), coverage=coverage, assumptions=spec.get('assume', []) + specs.COMMON_ASSUME, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o: json.dump(ev, o, indent=1)
    print('%s %s: %d configurations, %d paths, %d/%d obligations discharged, %d queries, %.1f s solver, %d functions, build %.0f s, wall %.0f s' % (prop, tier, len(rows), tot.get('paths', 0), tot.get('discharged', 0), tot.get('obligations', 0), tot.get('queries', 0), tot.get('solver_s', 0), len(funcs), tb, time.time() - t0))
    for x in incomplete: print('incomplete:', x)
    for u in unrep[:5]: print('not reproduced:', u['config'], u['label'], u['replay'])
    if os.environ.get('SX_ROWS'):
        for r in rows: print('  ', {k: v for k, v in r.items() if k != 'note'})
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join(VERIF, 'evidence', 'replay', prop + '.txt')))
        print('  ', viol[0][0]['c'], viol[0][3], viol[0][4]); return 1
    if bad:
        for x in bad: print('ERROR', x)
        return 2
    return 0

def selftest():
    for t in ('clang++', 'g++', 'ar', 'nm'):
        if not shutil.which(t): print('missing', t); return 2
    if not os.path.exists(Z + '/lib/libz3.so'): print('missing z3'); return 2
    print('ok: %d properties with checks' % len(specs.PROPS)); return 0

def symbolize(exes, cov):
    funcs = set()
    for h in {h for h, _ in cov}:
        r = subprocess.run(['nm', '-C', '-n', '--defined-only', exes[h]], capture_output=True, text=True).stdout
        tab = [(int(p[0], 16), p[2]) for p in (l.split(' ', 2) for l in r.split('\n')) if len(p) == 3 and p[1] in 'tTwWuV']
        import bisect
        keys = [a for a, _ in tab]
        for hh, pc in cov:
            if hh != h: continue
            k = bisect.bisect_right(keys, pc) - 1
            if k < 0: continue
            n = tab[k][1].split('(')[0].split(' ')[-1] if not tab[k][1].startswith('operator') else tab[k][1].split('(')[0]
            if n.startswith(('std::', '__gnu', 'sx', 'NTL::', 'mpz_', 'mpq_', '_', 'Sx')) or not re.fullmatch(r'[A-Za-z_~][\w:~<>, ]*', n): continue
            if specs.HARNESS[h].get('only') and not n.startswith(specs.HARNESS[h]['only']): continue
            funcs.add(n)
    return sorted(funcs)

if __name__ == '__main__': sys.exit(main())
