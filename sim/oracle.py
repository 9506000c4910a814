"""Structured view of a trace, and the reference model of calendar fields and time zones."""
import bisect, datetime, zoneinfo, collections

class Obj:
    def __init__(self, **k): self.__dict__.update(k)
    def __repr__(self): return 'Obj(%s)' % self.__dict__

class Tr:
    def __init__(self, ev, sc):
        self.ev = ev; self.sc = sc; self.daemons = []; self.jobs = []; self.runs = {}; self.mails = []; self.kills = []; self.logs = []; self.susp = []; self.clocks = []; self.crashes = []; self.files = []; self.probes = []; self.execfails = []; self.faults = []; self.pams = []; self.rclk = [(0, None)]
        self.end = ev[-1] if ev and ev[-1]['e'] == 'end' else {'t': 0}
        self.T = self.end.get('t', 0)
        byp = {}; D = {}; off = None; self.offs = []
        for e in ev:
            k = e['e']
            if 'r' in e:
                o = e['r'] - e['t']
                if o != off: self.offs.append((e['t'], o)); off = o
            if k == 'exec':
                if 'tag' in e:
                    r = Obj(tag=e['tag'], name=e['p'], argv=e['argv'], t=e['t'], r=e['r'], end=None, st=None, out='', err='', pid=e['pid'], e=e, exe=e['exe'], ruid=e['ruid'])
                    self.runs[e['tag']] = r
                    if e['exe'] == '/usr/sbin/fcron':
                        d = Obj(name=e['p'], pid=e['pid'], t=e['t'], r=e['r'], end=None, end_r=None, st=None, end_by=None, expected_stop=('-o' in e['argv'] or '--once' in e['argv']), argv=e['argv'], tag=e['tag'], term=None, err='', n=e['n'])
                        self.daemons.append(d); D[e['pid']] = d
                if 'job' in e:
                    j = Obj(id=e['job'], t=e['t'], r=e['r'], uid=e['ruid'], pid=e['pid'], p=e['p'], d=e['p'].split('.')[0], end=None, end_r=None, st=None, e=e, n=e['n'], end_n=None)
                    self.jobs.append(j); byp[e['pid']] = j
            elif k == 'exit':
                j = byp.pop(e['pid'], None)
                if j: j.end = e['t']; j.end_r = e['r']; j.st = e['st']; j.end_n = e['n']
                if 'tag' in e and e['tag'] in self.runs:
                    r = self.runs[e['tag']]; r.end = e['t']; r.st = e['st']; r.out = e.get('out', ''); r.err = e.get('err', ''); r.endr = e['r']
                d = D.pop(e['pid'], None)
                if d: d.end = e['t']; d.end_r = e['r']; d.st = e['st']; d.err = e.get('err', ''); d.end_by = 'exit' if (e['st'] & 127) == 0 else 'signal'
            elif k == 'sig':
                for d in D.values():
                    if d.pid == e.get('hit') and e['sig'] in (15, 9): d.expected_stop = True; d.term = d.term or e['t']
            elif k == 'kill':
                self.kills.append(e)
                d = D.get(e['to'])
                if d and e['sig'] in (15, 9): d.expected_stop = True; d.term = d.term or e['t']
            elif k == 'mail': self.mails.append(e)
            elif k == 'log': self.logs.append(e)
            elif k in ('suspend', 'clock'):
                d = e['us'] if k == 'suspend' else e['delta']
                (self.susp if k == 'suspend' else self.clocks).append((e['t'], d))
                if k == 'suspend': off = (off or 0) + d; self.offs.append((e['t'], off))
            elif k == 'crash':
                self.crashes.append(e['t'])
                for d in D.values(): d.end = e['t']; d.end_r = e['r']; d.end_by = 'crash'
                D.clear()
                for j in byp.values(): j.end = e['t']; j.end_r = e['r']; j.st = None
                byp.clear()
            elif k == 'file': self.files.append(e)
            elif k == 'probe': self.probes.append(e)
            elif k == 'execfail': self.execfails.append(e)
            elif k == 'fault': self.faults.append(e)
            elif k == 'pam': self.pams.append(e)
        for d in D.values(): d.end = None
    def real(self, t):
        """wall-clock (us) at monotonic time t (us)"""
        i = bisect.bisect_right([x[0] for x in self.offs], t) - 1
        return t + self.offs[max(i, 0)][1]
    def of(self, jid): return [j for j in self.jobs if j.id == jid]

MON = ['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']
DOW = ['sun', 'mon', 'tue', 'wed', 'thu', 'fri', 'sat']
FR = [(0, 59), (0, 23), (1, 31), (1, 12), (0, 7)]

# a field is a list of elements [lo, hi, step, [excluded...]] or '*' / ['*', step, excl]
def rfield(rng, i, dens=None, names=True):
    """random calendar field; returns (text, sorted set)"""
    lo, hi = FR[i]
    def num(v):
        if names and i == 3 and rng.random() < .4: return rng.choice([MON[v - 1], MON[v - 1].capitalize(), MON[v - 1].upper()])
        if names and i == 4 and v < 7 and rng.random() < .4: return rng.choice([DOW[v % 7], DOW[v % 7].capitalize()])
        return ('%02d' % v) if rng.random() < .1 else str(v)
    k = rng.random()
    if dens is None: dens = rng.random()
    els = []; S = set()
    for _ in range(1 if k < .6 else rng.randint(2, 4)):
        q = rng.random(); ex = []
        if q < .15 + .2 * dens:
            t = '*'; s = set(range(lo, hi + 1))
            if rng.random() < .6:
                n = rng.randint(1, max(2, (hi - lo) // 2)); t += '/%d' % n; s = set(range(lo, hi + 1, n))
        elif q < .5:
            v = rng.randint(lo, hi); t = num(v); s = {v}
        else:
            a = rng.randint(lo, hi); b = rng.randint(a, hi)
            if rng.random() < .1: b = hi
            if rng.random() < .12 and a > lo:               # a range that wraps around, as 22-3
                b = rng.randint(lo, a - 1); s = set(range(a, hi + 1)) | set(range(lo, b + 1)); t = num(a) + '-' + num(b)
            else:
                t = num(a) + '-' + num(b); s = set(range(a, b + 1))
                if rng.random() < .4:
                    n = rng.randint(1, max(1, b - a)) if b > a else 1; t += '/%d' % n; s = set(range(a, b + 1, n))
            x = sorted(s)
            while rng.random() < .3 and len(x) > 1:
                v = rng.choice(x); x.remove(v); t += '~' + num(v); ex.append(v)
                if i == 4 and v in (0, 7): ex += [0, 7]; x = [y for y in x if y not in (0, 7)]
        els.append(t); S |= s; S -= set(ex)
    if i == 4: S = set(v % 7 for v in S)
    return ','.join(els), sorted(S)

def fields(rng, rate=None, dens=None):
    """five fields; rate in {'min','hour','day','any'} steers how often they match"""
    F = [rfield(rng, i, dens) for i in range(5)]
    r = rate or rng.choice(['min', 'hour', 'hour', 'day', 'any'])
    star = lambda i: ('*', list(range(FR[i][0], FR[i][1] + (1 if i != 4 else 0))))
    if r in ('min', 'hour', 'day'):
        if rng.random() < .85: F[3] = star(3)
        c = rng.random()
        if c < .7: F[2] = star(2); F[4] = star(4)
        elif c < .85: F[2] = star(2)
        else: F[4] = star(4)
    if r == 'min' and rng.random() < .8: F[1] = star(1)
    if r == 'hour' and rng.random() < .5: F[1] = star(1)
    return [f[0] for f in F], [f[1] for f in F]

class Zone:
    """local labels of UTC minutes in a zone, with folds and gaps"""
    def __init__(self, name): self.name = name; self.z = zoneinfo.ZoneInfo(name) if name else datetime.timezone.utc; self.cache = {}
    def off(self, ts):
        h = ts // 900
        if h not in self.cache: self.cache[h] = int(datetime.datetime.fromtimestamp(h * 900, self.z).utcoffset().total_seconds())
        return self.cache[h]
    def label(self, ts):
        o = self.off(ts); d = ts + o
        return d                                       # local seconds since 1970 as if UTC
    def fold(self, lab):
        """the UTC instants carrying this label (0 = gap, 2 = fold)"""
        return sorted(set(lab - o for o in {self.off(lab - 86400), self.off(lab + 86400), self.off(lab - 3600 * 14), self.off(lab)} if self.off(lab - o) == o))

def split(lab):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=lab)
    return d.minute, d.hour, d.day, d.month, (d.weekday() + 1) % 7, d.year

class Cal:
    """a five-field specification"""
    def __init__(self, sets, dayor=False): self.s = [set(x) for x in sets]; self.dayor = dayor
    def match_parts(self, mi, h, d, mo, w):
        s = self.s
        if mi not in s[0] or h not in s[1] or mo not in s[3]: return False
        a, b = d in s[2], w in s[4]
        return (a or b) if self.dayor else (a and b)
    def match(self, lab):
        mi, h, d, mo, w, y = split(lab); return self.match_parts(mi, h, d, mo, w)
    def daymatch(self, lab):
        mi, h, d, mo, w, y = split(lab)
        if mo not in self.s[3]: return False
        a, b = d in self.s[2], w in self.s[4]
        return (a or b) if self.dayor else (a and b)
    def labels(self, l0, l1):
        """matching labels in [l0, l1)"""
        out = []; day = l0 // 86400 * 86400
        hm = sorted(h * 3600 + m * 60 for h in self.s[1] for m in self.s[0])
        while day < l1:
            if self.daymatch(day):
                out += [day + x for x in hm if l0 <= day + x < l1]
            day += 86400
        return out
