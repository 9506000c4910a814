"""Shared scenario building blocks."""
import random, datetime, re
from simlib import Plan, USERS, GROUPS, UID, GID, gids, esc, CONF
from oracle import *

US = ['alice', 'bob', 'carol', 'root', 'ali']
ZONES = ['Europe/Paris', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'Pacific/Auckland', 'America/St_Johns', 'Asia/Tokyo', 'UTC', 'America/Sao_Paulo', 'Pacific/Chatham', 'Africa/Casablanca', 'Europe/London']
def ts(y, mo, d, h=0, mi=0, s=0): return int(datetime.datetime(y, mo, d, h, mi, s, tzinfo=datetime.timezone.utc).timestamp())

def transitions(zone, t0, t1):
    """UTC instants of offset changes of a zone"""
    z = Zone(zone); out = []; step = 86400; t = t0
    while t < t1:
        if z.off(t) != z.off(t + step):
            a, b = t, t + step
            while b - a > 900:
                m = (a + b) // 2 // 900 * 900
                if z.off(m) == z.off(a): a = m
                else: b = m
                if b - a <= 900: break
            out.append(b)
        t += step
    return out

def rand_rt(rng, zone=None):
    """a random starting date, biased towards interesting ones"""
    k = rng.random()
    if zone and k < .5:
        y = rng.randint(2015, 2030); tr = transitions(zone, ts(y, 1, 1), ts(y + 1, 1, 1))
        if tr: return rng.choice(tr) - rng.randint(1800, 2 * 86400)
    if k < .65: return ts(rng.choice([2016, 2019, 2020, 2023, 2024, 2027, 2028]), 2, 28) - rng.randint(0, 2 * 86400)
    if k < .75: return ts(rng.randint(2015, 2035), 12, 31) + rng.randint(-86400, 43200)
    if k < .85: return ts(rng.randint(2015, 2035), rng.choice([1, 3, 5, 8, 10]), 30) + rng.randint(-86400, 2 * 86400)
    return rng.randint(ts(2005, 1, 1), ts(2036, 1, 1))

def sched_params(rng, heavy=.5):
    """scheduler intensity of a run"""
    k = rng.random()
    if k < .3: return {}
    p = {'preempt': rng.choice([2000, 20000, 100000, 300000]), 'pick': rng.choice([0, 100000, 500000])}
    return p

def apply(plan, sc):
    for k, v in sc.get('params', {}).items(): plan.params[k] = v

def base(sc):
    p = Plan(seed=sc['seed'], rt=sc['rt'], end=sc['end']); apply(p, sc); return p

def new_sc(rng, end, rt=None, **k):
    sc = dict(seed=rng.randint(1, 1 << 40), rt=rt if rt is not None else rng.randint(ts(2005, 1, 1), ts(2036, 1, 1)), end=end, params=sched_params(rng), ops=[], faults=[], jobs=[])
    sc.update(k); return sc

def opt_line(opts): return ','.join(opts)

def job_line(rng, j):
    """render one job: options inline, or as a '!' declaration; j has kind, opts, spec, cmd"""
    opts = list(j.get('opts', [])); rng.shuffle(opts)
    sp = rng.choice([' ', ' ', '\t', '  '])
    body = sp.join(j['spec']) if isinstance(j['spec'], list) else j['spec']
    body = body + sp + j['cmd']
    k = j['kind']; pre = ''
    if k == '%':
        kw = j['key']
        if opts and rng.random() < .25: pre = '!reset\n!' + opt_line(opts) + '\n'; opts = []
        first = kw + ((',' + opt_line(opts)) if opts else '')
        line = '%' + first + sp + body
    elif k == '@':
        if j.get('shortcut'): return (('!reset\n!' + opt_line(opts) + '\n') if opts else '') + '@' + j['shortcut'] + sp + j['cmd'] + ('\n!reset' if opts else '')
        if opts and rng.random() < .25: pre = '!reset\n!' + opt_line(opts) + '\n'; opts = []
        line = '@' + opt_line(opts) + ' ' + body
    else:
        if opts and rng.random() < .25: pre = '!reset\n!' + opt_line(opts) + '\n'; opts = []
        if opts: line = '&' + opt_line(opts) + sp + body
        elif pre: line = rng.choice(['&' + sp, '']) + body
        else: line = rng.choice(['& ', '&', '']) + body if not j.get('rfnum') else '&%d' % j['rfnum'] + sp + body
        if not opts and not pre and line.startswith('&') and not j.get('rfnum') and line[1] not in ' \t': line = '& ' + line[1:]
    if rng.random() < .1:                                  # a continuation line
        p = line.find(' ', len(line) // 2)
        if p > 0: line = line[:p + 1] + '\\\n' + line[p + 1:]
    if rng.random() < .1: line = rng.choice(['# a comment\n', '\n', '  \t\n']) + line
    if rng.random() < .1: line = rng.choice([' ', '\t']) + line
    if rng.random() < .1: line = line + rng.choice([' ', '\t '])
    return pre + line + ('\n!reset' if pre else '')

def table(jobs, user, head=''):
    return head + ''.join(j['line'] + '\n' for j in jobs if j['user'] == user)

def tables(plan, t, jobs, heads=None, users=None):
    """install the tables of the users that have jobs, 0.2 s apart"""
    k = 0
    for u in users or US:
        if any(j['user'] == u for j in jobs):
            plan.install(t + k * .2, u, table(jobs, u, (heads or {}).get(u, ''))); k += 1

def live(tr, t):
    """the daemon incarnation running at t"""
    for d in tr.daemons:
        if d.t <= t and (d.end is None or d.end > t): return d

def noise(rng, end, n=None):
    """operations which must not disturb other users' jobs"""
    out = []
    for _ in range(n if n is not None else rng.randint(0, 4)):
        t = rng.uniform(40, end - 20)
        k = rng.choice(['inst', 'rm', 'dynls', 'z', 'list', 'usr1', 'chld', 'dynlsu'])
        out.append(dict(t=round(t, 3), k=k, u='ali', a=rng.randint(0, 59), w=end > 10 * 86400))
    return out

def do_noise(plan, o):
    t, k, u = o['t'], o['k'], o.get('u')
    if k == 'inst': plan.install(t, u, ('%d 3 * * * J900 d1\n@ 2d J901\n' if o.get('w') else '%d * * * * J900 d1\n@ 7 J901\n') % o['a'])
    elif k == 'rm': plan.fcrontab(t, u, ['-r'])
    elif k == 'dynls': plan.fcrondyn(t, 'root', 'ls')
    elif k == 'dynlsu': plan.fcrondyn(t, u, 'ls')
    elif k == 'z': plan.fcrontab(t, u, ['-z'])
    elif k == 'list': plan.fcrontab(t, u, ['-l'])
    elif k == 'usr1': plan.op(t, 'sig', 'daemon', 10)
    elif k == 'chld': plan.op(t, 'sig', 'daemon', 17)
    else: return False
    return True

def parse_ls(out):
    """identifier -> job number of a fcrondyn listing"""
    r = {}
    for l in out.splitlines():
        m = re.match(r'^(\d+)\s.*\bJ(\d+)\b', l)
        if m: r[int(m.group(1))] = int(m.group(2))
    return r

import struct
def compiled(user, lines, ver=100, tsave=0, env=(), tzdiff=0):
    """a compiled table in the format of save.c, as a latin1 string; lines: dicts shell, runas, mailto, every (seconds) or None for every minute, nextexe, opt (bits)"""
    def f(t, b): return struct.pack('<hh', t, len(b)) + b
    def s(t, x): return f(t, x.encode('latin1'))
    def l(t, v): return f(t, struct.pack('<q', v))
    o = l(1, ver) + s(2, user) + l(3, tsave)
    if tzdiff: o += l(4, tzdiff)
    for e in env: o += s(1000, e)
    for x in lines:
        bits = set(x.get('opt', [7, 20])); fr = x.get('every') is not None
        if fr: bits.add(0)
        ob = bytes(sum(1 << (b % 8) for b in bits if b // 8 == k) for k in range(x.get('optsize', 4)))
        o += s(2001, x['shell']) + s(2006, x['runas']) + s(2007, x.get('mailto', x['runas'])) + f(2017, ob) + l(2008, x.get('nextexe', 0))
        for t, v in x.get('extra', []): o += l(t, v) if isinstance(v, int) else f(t, v)
        if fr: o += l(2018, x.get('first', x['every'])) + l(2010, x['every'])
        else: o += f(2012, b'\xff' * 8) + f(2013, b'\xff' * 3) + f(2014, b'\xff' * 4) + f(2015, b'\xff' * 2) + f(2016, b'\xff')
        o += struct.pack('<hh', 2000, 0)
    return o.decode('latin1')
