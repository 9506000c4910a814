"""Seeded search over simulated runs: generation, checking, minimisation, replay, evidence."""
import os, sys, json, time, random, re, importlib, traceback, signal, collections, hashlib
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); TOP = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(TOP, 'props')]
import build, simlib
from oracle import Tr

class Res:
    """What one run's oracle concluded."""
    def __init__(self): self.viol = []; self.n = 0; self.cov = collections.Counter(); self.harness = []
    def fail(self, key, msg, t=None): self.viol.append((key, ('t=%.3fs ' % (t / 1e6) if t is not None else '') + msg))
    def ok(self, n=1, what=None):
        self.n += n
        if what: self.cov[what] += n
    def cover(self, what, n=1): self.cov[what] += n

REAL = re.compile(r'^/usr/(s?bin)/fcron')
def generic(sc, tr, R):
    """Invariants of every run: memory safety, no deadly signal, no unexpected death of the daemon, no endless loop."""
    fired = [e for e in tr.ev if e['e'] == 'fault']
    killed = any(e.get('kind') in ('K', 'k', 'G', 'C', 'c') for e in fired)
    for e in tr.ev:
        k = e['e']
        if k == 'note':
            w = e.get('what')
            if w in ('UNMODELLED',): R.harness.append('unmodelled: %s' % e)
            elif w in ('HEAP', 'ASSERT', 'STACK'): R.fail('memory:%s' % w, 'process %s: %s %s' % (e.get('p'), w, e.get('arg', '')), e['t'])
        elif k == 'segv':
            R.fail('crash:sig%d' % e.get('sig', 0), 'process %s died of signal %s (invalid access, abort or endless loop)' % (e.get('p'), e.get('sig')), e['t'])
        elif k == 'end' and e.get('why') == 'maxsteps':
            R.fail('endless', 'the run never comes to rest: step limit reached (busy loop)', e['t'])
    if not sc.get('daemon_may_die'):
        for d in tr.daemons:
            if d.end is not None and d.end_by == 'exit' and not d.expected_stop and not killed:
                R.fail('daemon-died', 'the daemon %s exited by itself (status %s)' % (d.name, d.st), d.end)

def one(mod, sim, sc, decs=None):
    """Build the plan of a scenario, run it, judge it."""
    sc = json.loads(json.dumps(sc))                # build() and check() leave notes in it
    plan = mod.build(sc)
    txt = plan.text(sched=decs)
    try: raw = sim.raw(txt)
    except RuntimeError as x: raise RuntimeError('simulator failed on scenario: %s' % x)
    ev = simlib.parse(raw)
    tr = Tr(ev, sc); R = Res()
    generic(sc, tr, R)
    if not R.viol or getattr(mod, 'ALWAYS', False): mod.check(sc, tr, R)
    return txt, ev, tr, R

def rng_for(seed, pid, i): return random.Random('%s:%s:%s' % (seed, pid, i))

_w = {}
def _init(bdir, pid, seed, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _w.update(sim=simlib.Sim(bdir), mod=importlib.import_module(pid.lower()), pid=pid, seed=seed, tier=tier)
def _scenario(mod, seed, pid, tier, i):
    rng = rng_for(seed, pid, i); sc = mod.gen(rng, i, tier); sc['index'] = i
    return json.loads(json.dumps(sc))
def _work(i):
    mod = _w['mod']
    try:
        sc = _scenario(mod, _w['seed'], _w['pid'], _w['tier'], i)
        txt, ev, tr, R = one(mod, _w['sim'], sc)
        end = ev[-1] if ev and ev[-1]['e'] == 'end' else {}
        F = collections.Counter()
        for e in ev:
            if e['e'] == 'fault': F['%s:%s' % (e.get('sys', '?'), e.get('kind', '?'))] += 1
            elif e['e'] in ('crash', 'suspend', 'clock', 'fscrash'): F[e['e']] += 1
            elif e['e'] == 'disk': F['disk-limit'] += 1
            elif e['e'] == 'forklimit': F['fork-limit'] += 1
            elif e['e'] == 'sig': F['signal-to-daemon'] += 1
        return dict(i=i, viol=R.viol, n=R.n, cov=dict(R.cov), harness=R.harness, vt=end.get('t', 0), hash=end.get('hash', ''), sw=end.get('switches', 0), pre=end.get('preempts', 0), stalls=end.get('stalls', 0),
                    steps=end.get('steps', 0), faults=dict(F), real=sorted(set(e['exe'] for e in ev if e['e'] == 'exec' and REAL.match(e.get('exe', '')))), stubs=sorted(set(e['exe'] for e in ev if e['e'] == 'exec' and not REAL.match(e.get('exe', '')))))
    except Exception:
        return dict(i=i, err=traceback.format_exc())

def known():
    out = []
    p = os.path.join(TOP, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def split_known(pid, viol, kf):
    ks, new = [], []
    for key, msg in viol:
        for p, rx, what in kf:
            if p == pid and re.fullmatch(rx, key): ks.append((p, rx, what)); break
        else: new.append((key, msg))
    return ks, new

# ---- minimisation
def minimise(mod, sim, sc, key, kf, pid, budget=75):
    t0 = time.time(); runs = [0]
    def bad(s, decs):
        runs[0] += 1
        try: txt, ev, tr, R = one(mod, sim, s, decs)
        except Exception: return None
        _, new = split_known(pid, R.viol, kf)
        return (txt, ev, R) if any(k == key for k, m in new) else None
    def left(): return time.time() - t0 < budget
    txt, ev, tr, R = one(mod, sim, sc)
    decs = [e['d'] for e in ev if e['e'] == 'D']
    best = bad(sc, decs)
    if best is None: decs = None; best = bad(sc, None)
    if best is None: return None
    def ddmin(get, put, cur):
        nonlocal best
        items = get(cur); n = 2
        while items and left():
            sz = max(1, len(items) // n); done = False
            for k in range(0, len(items), sz):
                if not left(): return cur
                cand = put(cur, items[:k] + items[k + sz:])
                b = bad(*cand)
                if b: best = b; cur = cand; items = get(cur); n = max(2, n - 1); done = True; break
            if not done:
                if sz == 1: break
                n = min(len(items), n * 2)
        return cur
    cur = (sc, decs)
    if decs:
        b = bad(sc, [])
        if b: best = b; cur = (sc, [])
    for rnd in range(2):
        for path in getattr(mod, 'MIN', ['faults', 'ops', 'jobs']):
            def get(c, p=path):
                x = c[0]
                for q in p.split('.'): x = x[q] if isinstance(x, dict) and q in x else []
                return list(x)
            def put(c, items, p=path):
                s = json.loads(json.dumps(c[0])); x = s; q = p.split('.')
                for y in q[:-1]: x = x[y]
                x[q[-1]] = items; return (s, c[1])
            cur = ddmin(get, put, cur)
        if cur[1]: cur = ddmin(lambda c: list(c[1]), lambda c, it: (c[0], it), cur)
    return cur, best, runs[0]

def ev_hash(ev):
    e = ev[-1]; return str(e.get('hash', '')) if e['e'] == 'end' else ''

def run_replay(pid, path):
    bdir = build.build(); mod = importlib.import_module(pid.lower())
    d = json.load(open(path)); sim = simlib.Sim(bdir)
    txt, ev, tr, R = one(mod, sim, d['scenario'], d['decisions'])
    for e in ev:
        if e['e'] not in ('D', 'fork', 'pam'): print(json.dumps(e)[:600])
    same = ev_hash(ev) == d['hash']
    print('replayed: trace hash %s (%s)' % (ev_hash(ev), 'identical' if same else 'different from the recorded %s' % d['hash']))
    for k, m in R.viol: print('  %s: %s' % (k, m))
    if any(k == d['key'] for k, m in R.viol):
        print('VIOLATION property=%s replay=%s' % (pid, path)); return 1
    print('the recorded violation (%s) does not occur on this tree' % d['key']); return 0

def samples(mod, seed, pid, tier, first, done):
    out = []
    for k in range(min(done, 3)):
        sc = _scenario(mod, seed, pid, tier, first + k)
        ops = [l for l in mod.build(sc).text().splitlines() if not l.startswith(('op -1', 'user ', 'group '))]
        out.append(dict(verif_seed=str(seed), run=first + k, plan=[l[:300] for l in ops[:40]], omitted_lines=max(0, len(ops) - 40)))
    return out

def main(pid, argv):
    if '--replay' in argv: return run_replay(pid, argv[argv.index('--replay') + 1])
    t0 = time.time(); tier = os.environ.get('VERIF_TIER', 'quick'); 
    if '--thorough' in argv: tier = 'thorough'
    seed = os.environ.get('VERIF_SEED', '1')
    bdir = build.build()
    mod = importlib.import_module(pid.lower())
    N = mod.QUICK if tier == 'quick' else getattr(mod, 'THOROUGH', mod.QUICK * 25)
    cap = 240 if tier == 'quick' else 780
    if '-n' in argv: N = int(argv[argv.index('-n') + 1])
    first = int(argv[argv.index('-i') + 1]) if '-i' in argv else 0
    verbose = '-v' in argv; keep_going = '-k' in argv
    kf = known(); kseen = {}
    tot = collections.Counter(); cov = collections.Counter(); faults = collections.Counter(); hashes = set(); nontriv = set(); real = set(); stubs = set()
    vs = []; errs = []; done = 0; keys = collections.Counter(); keyex = {}
    nproc = min(int(os.environ.get('SIM_PROCS', '8')), max(1, N))
    ts = time.time()
    pool = mp.get_context('fork').Pool(nproc, _init, (bdir, pid, seed, tier))
    try:
        for r in pool.imap(_work, range(first, first + N), chunksize=1 if N < 400 else 4):
            done += 1
            if 'err' in r:
                errs.append(r)
                if len(errs) > 3 and not keep_going: break
                continue
            tot['vt'] += r['vt']; tot['n'] += r['n']; tot['sw'] += r['sw']; tot['pre'] += r['pre']; tot['stalls'] += r['stalls']; tot['steps'] += r['steps']
            cov.update(r['cov']); faults.update(r['faults']); hashes.add(r['hash']); real.update(r['real']); stubs.update(r['stubs'])
            if r['n']: nontriv.add(r['hash'])
            if r['harness']: errs.append(dict(i=r['i'], err='; '.join(r['harness'][:3])))
            ks, new = split_known(pid, r['viol'], kf)
            for k in ks: kseen[k] = kseen.get(k, 0) + 1
            for k, m in new:
                keys[k] += 1; keyex.setdefault(k, (r['i'], m))
            if new:
                vs.append((r['i'], new))
                if not keep_going: break
            if time.time() - ts > cap: break
    finally:
        pool.terminate(); pool.join()
    wall_search = time.time() - ts
    rc = 0; vout = []
    if keep_going:
        for k, c in keys.most_common(): print('%6d %s  e.g. run %d: %s' % (c, k, keyex[k][0], keyex[k][1]))
    for e in errs[:3]: print('HARNESS ERROR run %s: %s' % (e['i'], e['err']), file=sys.stderr)
    if vs and not keep_going:
        i, new = vs[0]; key, msg = new[0]
        sc = _scenario(mod, seed, pid, tier, i); sim = simlib.Sim(bdir)
        a = one(mod, sim, sc); b = one(mod, sim, sc)
        if ev_hash(a[1]) != ev_hash(b[1]): print('HARNESS ERROR: run %d is not repeatable' % i, file=sys.stderr); return 2
        mini = minimise(mod, sim, sc, key, kf, pid, 75 if '--nomin' not in argv else 0)
        if mini is None: print('HARNESS ERROR: run %d did not reproduce' % i, file=sys.stderr); return 2
        (msc, decs), (txt, ev, R), nr = mini
        os.makedirs(os.path.join(TOP, 'replays'), exist_ok=True)
        path = os.path.join(TOP, 'replays', '%s-%s-%d.json' % (pid, seed, i))
        mm = [m for k, m in R.viol if k == key][0]
        json.dump(dict(property=pid, seed=seed, index=i, key=key, message=mm, hash=ev_hash(ev), decisions=decs, scenario=msc, plan=txt, minimisation_runs=nr), open(path, 'w'), indent=1)
        # replay it in a fresh simulator
        s2 = simlib.Sim(bdir); d = json.load(open(path)); r2 = one(mod, s2, d['scenario'], d['decisions'])
        if ev_hash(r2[1]) != d['hash'] or not any(k == key for k, m in r2[3].viol): print('HARNESS ERROR: the replay file does not reproduce', file=sys.stderr); return 2
        print('run %d of seed %s: %s: %s' % (i, seed, key, msg))
        print('minimised (%d runs): %s' % (nr, mm))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1; vout = [dict(key=key, message=mm, seed=seed, index=i, replay=os.path.relpath(path, TOP))]
    elif vs: rc = 1
    elif errs: rc = 2
    for p, rx, what in kf:
        if p == pid: print('KNOWN-FINDING: property=%s %s' % (pid, what))
    wall = time.time() - t0
    evd = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(seed) if str(seed).isdigit() else 1, level=getattr(mod, 'LEVEL', 'exploration'),
        coverage=dict(evaluations=done, distinct_nontrivial=len(nontriv), rule='one evaluation is one simulated execution of the whole system, judged by the oracle of %s; distinct_nontrivial counts executions with different trace hashes (hash over every event, its virtual time and every scheduling switch) in which the oracle judged at least one obligation' % pid,
            samples=samples(mod, seed, pid, tier, first, done), obligations_judged=tot['n'], by_kind=dict(cov.most_common(60)),
            simulated_hours=round(tot['vt'] / 3.6e9, 2), runs_per_hour=int(done / max(wall_search, 1e-3) * 3600), faults_injected=dict(faults), distinct_executions=len(hashes), context_switches=tot['sw'], forced_preemptions=tot['pre'], stalls=tot['stalls'], system_calls=tot['steps'],
            real_components=sorted(real), stub_components=sorted(stubs) + ['kernel, file system, sockets, clock, PAM, SELinux, syslog (simulated)'], known_findings_seen={k[2]: v for k, v in kseen.items()}, planned_runs=N),
        assumptions=getattr(mod, 'ASSUME', []) + ['the simulated operating system (sim/kern.c) behaves like Linux for the calls fcron makes', 'job commands, the mailer, the editor and PAM are stubs'],
        wall_s=round(wall, 2), violations=len(vout), violation_list=vout)
    os.makedirs(os.path.join(TOP, 'evidence'), exist_ok=True)
    if '-n' not in argv and '-i' not in argv or rc: json.dump(evd, open(os.path.join(TOP, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d runs, %d obligations, %d distinct executions, %.1f simulated hours, faults %d, %.1f s' % (pid, tier, done, tot['n'], len(nontriv), tot['vt'] / 3.6e9, sum(faults.values()), wall))
    if verbose:
        for k, v in cov.most_common(): print('   %-40s %d' % (k, v))
        print('   faults', dict(faults))
    return rc
