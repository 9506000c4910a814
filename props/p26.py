"""P26: fcrontab reports and keeps exactly the table it was given."""
from common import *
QUICK = 12000
THOROUGH = 200000
U = 1000000
MIN = ['faults', 'ops', 'downs']
SPOOL = '/var/spool/fcron'
EIO, ENOSPC, EDQUOT, ENOMEM, EACCES, EMFILE, EROFS, EAGAIN = 5, 28, 122, 12, 13, 24, 30, 11
# lines which have a meaning in no mode; X is a job which must never run
BAD = ['60 * * * * X', '* 24 * * * X', '* * 32 * * X', '* * 0-5 * * X', '* * * 13 * X', '* * * 0 * X', '* * * * 8 X', '*/0 * * * * X', '1-5/0 * * * * X', '5- * * * * X', '1,,2 * * * * X', ',1 * * * * X', '1, * * * * X',
       '*/ * * * * X', 'a * * * * X', '1~ * * * * X', '* * * foo * X', '* * * * m X', '5;6 * * * * X', '5x * * * * X', '** * * * * X', '*-5 * * * * X', '100 * * * * X', '* * * *', '* * * * *', '1-5/99 * * * * X', '*5 * * * * X',
       '@ X', '@5x X', '@0 X', '@-5 X', '@1h', '@1h5q X', '@99999999w X', '@foo X', '@first(x) 1h X', '@reboot', '% X', '%hourly', '%foo * X', '%daily 5 X', '%hourly 5- X', '&0 * * * * * X', '&1 * * * * * X', '&99999 * * * * * X', '&2serial * * * * * X', '&serial',
       '!foo(1)', '!nice(x)', '!nice(50)', '!serial(2)', '!lavg(1)', '!lavg1(99)', '!until(x)', '!jitter(300)', '!runfreq(1)', '!tzdiff(50)', '!runas()', '!mailto( x )', '!first(5x)', '!', '!bootrun(2)', '&nice(z) * * * * * X', '&lavg(1,1) * * * * * X', '&until(5x) * * * * * X',
       'A', '=x', 'A b', 'A="x', "A='x", 'foo bar', '/bin/true', 'X', 'export A=1', 'LONG', '60 * * \\\n * * X', '  61 * * * * X', '\t* * * * 9 X']

def gen_text(rng, sc, u, big=True):
    """a table: its text, the ids of the jobs of each minute, the lines with an error, the size class"""
    L = []; ids = []; bad = []; ln = 1; size = 'small'
    def add(s): 
        nonlocal ln
        L.append(s); ln += s.count('\n') + 1
    def job():
        sc['nid'] += 1; ids.append(sc['nid']); return 'J%d' % sc['nid']
    if rng.random() < .6: add(rng.choice(['!mail(no)', '# head', 'MAILTO=""', '', '!reset', 'A = b c']))
    nb = rng.choice([0, 0, 0, 0, 1, 1, 2, 4])
    n = rng.choice([0, 1, 1, 2, 2, 3, 5]) if rng.random() < .85 else 0
    kinds = ['j'] * n + ['b'] * nb + ['c'] * rng.choice([0, 1, 2, 5]); rng.shuffle(kinds)
    for k in kinds:
        if k == 'j':
            j = job(); f = rng.choice(['* * * * * %s', '& * * * * * %s', '*/1 * * * * %s', '&\t0-59 * * * *\t%s', '  * * * * * %s  ', '&mail(no) * * * * * %s', '* * \\\n* * * %s', '0-29,30-59 * * * * %s', '* * * * * %s # % \\ "', '&foo * * * * * %s', '&jitter(0) * * * * * %s'])
            if f.startswith('&foo'): bad.append([ln, 'warn'])
            add(f.replace('%s', j) if '%s #' in f else f % j)
        elif k == 'b':
            b = rng.choice(BAD); sc['nid'] += 1; sc['never'].append(sc['nid']); b = b.replace('X', 'J%d' % sc['nid'])
            if b == 'LONG': b = rng.choice(['# ', '* * * * * J%d ' % sc['nid'], 'A=']) + 'l' * rng.choice([1023, 1024, 1030, 2047, 3000])
            bad.append([ln + b.count('\n'), 'long' if len(b) > 1000 else 'bad']); add(b)
        else: add(rng.choice(['# a comment', '', '   ', '\t# x', '#', '# \xe9\xff\x01\x7f', '# ' + 'y' * rng.choice([80, 500, 1020]), 'E%d = v' % rng.randint(0, 9), "Q='a  b'", '# \r', '# cont \\\n# tail', '#\x00hidden', '# %s %d']))
    x = rng.random() if big else 1
    if x < .03: [add('# ' + 'z' * 200 + str(q)) for q in range(rng.choice([4, 5, 20, 21, 40, 300]))]; size = 'large'; j = job(); add('* * * * * ' + j)
    elif x < .036 and u != 'root':
        size = 'lines'; [add('#' * rng.choice([0, 1, 3])) for q in range(10300)]; sc['nid'] += 1; sc['never'].append(sc['nid']); add('* * * * * J%d' % sc['nid'])
    elif x < .042 and u != 'root':
        size = 'entries'; [add('0 0 1 1 * true') for q in range(1100)]; sc['nid'] += 1; sc['never'].append(sc['nid']); add('* * * * * J%d' % sc['nid'])
    s = '\n'.join(L)
    if s and rng.random() < .85: s += '\n'
    elif s.endswith('\\'): s += '\n'
    return dict(s=s, ids=ids, bad=bad, size=size)

def afault(rng, who, t, k):
    c = rng.random()
    if c < .22: return dict(who=who, sys=rng.choice(['*', '*', '*', 'rename', 'write', 'open', 'unlink', 'close', 'fsync']), frm=rng.choice([rng.randint(1, 8), rng.randint(1, 120), rng.randint(1, 300)]), cnt=1, kind=rng.choice('Kk'), arg=0)
    if c < .36: return dict(who=who, sys=rng.choice(['write', 'read']), frm=rng.randint(1, 12), cnt=rng.choice([1, 3, 1000]), kind='S', arg=rng.choice([1, 7, 100]))
    if k == 'list' and rng.random() < .6: return dict(who=who, sys='read' if rng.random() < .6 else 'write', frm=rng.randint(1, 8), cnt=rng.choice([1, 1000]), kind='E', arg=EIO)
    s = rng.choice(['open', 'write', 'write', 'write', 'rename', 'rename', 'read', 'read', 'fchown', 'fchmod', 'unlink', 'close', 'fdatasync', 'fsync', 'malloc', 'fork', 'fstat'])
    e = {'write': [EIO, ENOSPC, EDQUOT], 'open': [EIO, EMFILE, EACCES, EROFS], 'malloc': [ENOMEM], 'fork': [EAGAIN], 'read': [EIO], 'fstat': [EIO]}.get(s, [EIO, ENOSPC, EROFS])
    return dict(who=who, sys=s, frm=rng.choice([1, 1, 2, 3, 4, rng.randint(1, 20)]), cnt=rng.choice([1, 1, 1, 2, 1000]), kind='E', arg=rng.choice(e))

def gen(rng, i, tier):
    sc = new_sc(rng, 0, nid=0, never=[], downs=[], users=rng.sample(['alice', 'bob', 'root', 'carol'], rng.choice([1, 1, 2, 3])))
    big = rng.random() < .35; last = 30.
    for u in sc['users']:
        t = rng.uniform(1, 12)
        for n in range(rng.choice([2, 3, 5, 7, 10])):
            t += rng.choice([3.5, 4, 6, 9, 14, 30, 75, 80])
            k = rng.choice(['stdin', 'stdin', 'file', 'nfile', 'edit', 'edit', 'edit', 'rm', 're', 'list', 'list'])
            if n == 0 and rng.random() < .7: k = 'stdin'
            by = u if rng.random() < .7 or u == 'root' else 'root'
            o = dict(t=round(t, 4), u=u, by=by, k=k, n=len(sc['ops']))
            if k in ('stdin', 'file', 'nfile'): o['x'] = [gen_text(rng, sc, u, big)]
            elif k == 'edit':
                m = rng.choice(['none', 'one', 'one', 'one', 'seq', 'seq']); o['x'] = [] if m == 'none' else [gen_text(rng, sc, u, big) for _ in range(1 if m == 'one' else rng.choice([2, 3]))]
                o['ms'] = rng.choice([0, 0, 1, 20, 300, 1100]); o['er'] = rng.choice([0, 0, 0, 0, 1, 2, 3]) if m != 'none' else 0; o['ek'] = rng.choice([0] * 9 + [15, 9, 1]); o['ex'] = rng.choice([0] * 12 + [1])
                o['ans'] = [rng.choice(['c', 'c', 'i', 'i', 'x', 'correct', '', 'ignore', 'I']) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]; o['nl'] = rng.random() < .9; o['eu'] = int(rng.random() < .5)
                if len(o['ans']) > 1: o['ms'] = min(o['ms'], 300)
                for x in o['x'] if len(o['x']) > 1 else []:
                    if not x['ids']: sc['nid'] += 1; x['s'] += ('' if not x['s'] or x['s'].endswith('\n') else '\n') + '# %d\n' % sc['nid']       # (the editor tells the edits apart)
            sc['ops'].append(o)
            if rng.random() < .33: sc['faults'].append(dict(afault(rng, 'o%d' % o['n'], t, k), n=o['n']))
            if rng.random() < .6: t += rng.choice([3.2, 4, 12]); sc['ops'].append(dict(t=round(t, 4), u=u, by=u if rng.random() < .8 else 'root', k='list', n=len(sc['ops'])))
        last = max(last, t)
    if rng.random() < .25:
        a = rng.uniform(20, last); sc['downs'].append([round(a, 3), round(rng.choice([rng.uniform(1, 20), rng.uniform(1, 100)]), 3)])
    sc['end'] = int(max([last] + [a + b for a, b in sc['downs']]) + 150); sc['ops'].sort(key=lambda o: o['t'])
    if len(sc['users']) > 1 and rng.random() < .5:                      # several users at the same time (the daemon reads the tables while another fcrontab runs)
        g = rng.choice([1, 4, 5]); sh = rng.choice([.002, .01, .05]); lt = {}
        for o in sc['ops']:
            t = round(o['t'] / g) * g + (rng.uniform(0, sh) if rng.random() < .7 else 5 + rng.uniform(0, sh))
            t = max(t, lt.get(o['u'], 0) + 3.3); o['t'] = round(t, 4); lt[o['u']] = t
        sc['end'] += 8; sc['ops'].sort(key=lambda o: o['t'])
    # ends with a certain state for everybody
    if rng.random() < .5:
        for u in sc['users']: sc['ops'].append(dict(t=round(sc['end'] - 3.5 - sc['users'].index(u) * .1, 3), u=u, by=u, k='list', n=len(sc['ops'])))
    sc['ls'] = [round(rng.uniform(15, sc['end']), 3) for _ in range(2)] + [sc['end'] - 1]
    return sc

def build(sc):
    p = base(sc); p.daemon(.5, ['-l', '2'], name='d0')
    for k, (a, w) in enumerate(sc['downs']): p.op(a, 'sig', 'daemon', 15); p.daemon(a + w, ['-l', '2'], name='d%d' % (k + 1))
    for o in sc['ops']:
        t, u, by, k, n = o['t'], o['u'], o['by'], o['k'], o['n']; pre = [] if u == by else ['-u', u]; name = 'o%d' % n
        if k == 'stdin': g = p.fcrontab(t, by, pre + ['-'], stdin=o['x'][0]['s'], name=name)
        elif k in ('file', 'nfile'):
            f = '/home/f%d' % n; p.file0(f, o['x'][0]['s'], UID[by], GID[by], '600'); g = p.fcrontab(t, by, pre + (['-n'] if k == 'nfile' else []) + [f], name=name)
        elif k == 'edit':
            for q, x in enumerate(o['x']): p.file0('/plan/edit%d' % (n * 10 + q), x['s'], 0, 0, '644')
            env = ['PATH=/usr/bin:/bin', 'HOME=/', 'USER=' + by, 'LOGNAME=' + by, 'EDITOR=/usr/bin/ed', 'EDN=%d' % (n * 10), 'EDQ=%d' % max(0, len(o['x']) - 1), 'EDS=%d' % o['ms'], 'EDR=%d' % o['er'], 'EDK=%d' % o['ek'], 'EDX=%d' % o['ex'], 'EDU=%d' % o.get('eu', 0)]
            g = p.fcrontab(t, by, pre + ['-e'], name=name, env=env, stdin='\n'.join(o['ans']) + ('\n' if o['ans'] and o['nl'] else ''))
        elif k == 'rm': g = p.fcrontab(t, by, pre + ['-r'], name=name)
        elif k == 're': g = p.fcrontab(t, by, pre + ['-z'], name=name)
        else: g = p.fcrontab(t, by, pre + ['-l'], name=name)
        o['tag'] = g
    for f in sc['faults']: p.fault(f['who'], f['sys'], f['frm'], f['cnt'], f['kind'], f['arg'])
    for t in sc['ls']: p.op(t, 'cat', SPOOL); p.op(t, 'cat', '/tmp')
    return p

def edit_result(o):
    """what the editing session leads to: ('keep', must fail), ('new', text) or None (not judged)"""
    if o['ex']: return None
    if o['ek']: return ('keep', True)
    if o['er'] == 2: return ('keep', True)
    if not o['x']: return ('keep', False)
    cur = 0; ans = list(o['ans'])
    while True:
        if not o['x'][cur]['bad'] and o['x'][cur]['size'] not in ('lines', 'entries'): return ('new', o['x'][cur])
        while True:
            if not ans: return ('keep', True)
            a = ans.pop(0)
            if a[:1] == 'i': return ('new', o['x'][cur])
            if a[:1] == 'c': break
            # (an empty last line without a new line is the end of the input)
            if a == '' and not ans and not o['nl']: return ('keep', True)
        if cur + 1 < len(o['x']): cur += 1

def ids6(u): return ' '.join([str(UID[u])] * 3 + [str(GID[u])] * 3)

def merge(a, b): return a + [x for x in b if x not in a]

def check(sc, tr, R):
    hits = {}
    for e in tr.faults: hits.setdefault(e['p'].split('.')[0], []).append(e)
    owner = {}
    hist = {u: [(0, -1, [None], [[]], False)] for u in sc['users']}      # (begin, end, possible sources, possible sets of jobs, reset requested)
    spans = {u: [] for u in sc['users']}; dirty = []; unsure_dirs = False
    for o in sc['ops']:
        u = o['u']; r = tr.runs.get(o['tag'])
        for x in o.get('x', []):
            for q in x['ids']: owner[q] = u
        if r is None: continue
        fl = hits.get(r.name, []); k = o['k']; b, e, src, idl, lost = hist[u][-1]; what = '"%s" by %s' % (' '.join(r.argv), o['by'])
        killed = r.end is None or r.st & 127; ok = not killed and r.st == 0; end = r.end if r.end is not None else tr.T
        if killed and not fl: return R.fail('killed', '%s dies (status %s)' % (what, r.st), r.t)
        if fl and any(f['sys'] in ('fork', 'malloc', 'unlink') for f in fl) or killed: dirty.append(r.t)
        if k == 'list':
            if not ok:
                if not fl: return R.fail('list-fails', '%s fails (status %s): %r' % (what, r.st, r.err[-200:]), r.t)
                continue
            got = None if 'has no fcrontab' in r.err else r.out
            R.ok(1, '-l compared'); R.cover('list of %s%s' % ('none' if got is None else 'empty' if not got else 'small' if len(got) < 1000 else 'large', ' under fault' if fl else ''))
            if got not in src and not (fl and got == '' and None in src):
                w = src[0]; kind = 'none' if got is None else 'part' if w and got != w and w.startswith(got) else 'other'
                return R.fail('list-' + kind, '%s prints %s, expected %s' % (what, 'that there is no table' if got is None else '%d bytes ...%r' % (len(got), got[-120:]), ' or '.join('no table' if x is None else '%d bytes ...%r' % (len(x), x[-120:]) for x in src)), r.t)
            if len(src) > 1 and not fl: hist[u].append((r.t, end, [got], idl, lost))
            continue
        spans[u].append((r.t, end))
        new = None                                       # (sources, sets of jobs) of a success
        mustfail = False; judged = True
        if k in ('stdin', 'file', 'nfile'): new = o['x'][0]
        elif k == 'edit':
            er = edit_result(o)
            if er is None: judged = False; new = None
            elif er[0] == 'keep': mustfail = er[1]; new = 'keep'
            else: new = er[1]
            if isinstance(new, dict) and not new['s'] and None in src: judged = False      # (an empty edit of no table)
            # what the editor was shown
            for ed in tr.ev:
                if ed['e'] == 'editor' and ed['p'].startswith(r.name + '.'):
                    c = ed.get('content'); R.ok(1, 'what the editor shows')
                    if c is not None and c not in [x or '' for x in src]: return R.fail('editor', '%s shows %d bytes ...%r to the editor, expected %s' % (what, len(c), c[-100:], ' or '.join('%d bytes ...%r' % (len(x or ''), (x or '')[-100:]) for x in src)), ed['t'])
                    if ed['ids'] != ids6(o['by']): return R.fail('rights', '%s: the editor has the user and group numbers %s rather than %s' % (what, ed['ids'], ids6(o['by'])), ed['t'])
                    break
        elif k == 'rm': new = 'none'
        elif k == 're': new = 'same'; mustfail = None if len(src) > 1 and None in src else src == [None]
        # ---- errors are told
        if isinstance(new, dict) and ok and not fl or isinstance(new, dict) and k == 'edit' and not fl:
            xs = [new] if k != 'edit' else o['x'][:1]
            for x in xs:
                for ln, how in x['bad']:
                    R.ok(1, 'error told')
                    if ':%d: ' % ln not in r.err and not (how == 'long' and ':%d: Line is too long' % (ln + 1) in r.err): return R.fail('silent', '%s says nothing about the error of line %d, %r: %r' % (what, ln, x['s'].split('\n')[ln - 1][:60], r.err[-300:]), r.t)
                if x['size'] in ('lines', 'entries') and 'maximum number of %s' % x['size'] not in r.err: return R.fail('silent', '%s ignores the end of a table of %d lines silently: %r' % (what, x['s'].count('\n'), r.err[-300:]), r.t)
                if x['bad'] or x['size'] != 'small': R.cover('errors told')
        ns, ni, nl = src, idl, lost
        if not judged:
            for x in o['x']: ns = merge(ns, [x['s']]); ni = merge(ni, [x['ids']])
        elif new == 'keep':
            if not fl and not killed and mustfail == ok: return R.fail('status', '%s exits with status %d: %r' % (what, r.st >> 8, r.err[-200:]), r.t)
            R.cover('edit not saved')
        elif killed:
            if new == 'none': ns = merge(src, [None]); ni = merge(idl, [[]])
            elif new == 'same': nl = True
            else:
                ns = merge(src, [new['s']]); ni = merge(idl, [new['ids']]); nl = nl or k == 'nfile'
            R.cover('killed %s' % k)
        elif ok:
            if mustfail and not fl: return R.fail('status', '%s exits with status 0 although there is no table: %r' % (what, r.err[-200:]), r.t)
            R.cover('done %s%s' % (k, ' under fault' if fl else ''))
            sig = any(f['sys'] in ('fork', 'malloc') for f in fl)              # (the daemon was maybe not told)
            if new == 'none': ns, ni = [None], merge([[]], idl if sig else []); nl = False
            elif new == 'same': ni = ni if sig or len(src) > 1 or len(idl) > 1 else idl; nl = False
            else: ns, ni = [new['s']], merge([new['ids']], idl if sig else []); nl = False
            if new == 'same' and len(ni) > 1: ni = merge(ni, [[]])
        else:
            R.cover('failed %s' % k)
            none = new == 'none' and src == [None]
            if not fl and mustfail is False and not none: return R.fail('status', '%s fails (status %d): %r' % (what, r.st >> 8, r.err[-300:]), r.t)
            if none: pass
            elif new == 'none': ns = merge(src, [None]); ni = merge(idl, [[]])
            elif new == 'same': pass
            else:
                soft = any(f['sys'] in ('fork', 'malloc') for f in fl) or any(f['sys'] == 'rename' for f in fl)
                if not new['ids']: soft = soft or any(f['sys'] in ('open', 'unlink', 'close', 'fstat') for f in fl)   # (installed as a removal)
                if soft: ns = merge(src, [new['s']]); ni = merge(idl, [new['ids']])
            if any(f['sys'] in ('rename', 'fork', 'malloc') for f in fl) and k in ('re', 'nfile'): nl = True
        hist[u].append((r.t, end, ns, ni, nl))
    # ---- the jobs of each minute
    for x in tr.jobs:
        if x.id in sc['never']: return R.fail('bad-line-runs', 'job J%d of a line with an error, or out of the limits, runs' % x.id, x.t)
        if x.id not in owner: return R.fail('phantom', 'a job J%d which is in no table ran' % x.id, x.t)
        if x.uid != UID[owner[x.id]]: return R.fail('owner', 'job J%d of %s ran as uid %d' % (x.id, owner[x.id], x.uid), x.t)
    for d in tr.daemons:
        e = d.end if d.end is not None else tr.T
        if d.term is not None: e = min(e, d.term)
        if d.end is not None and d.term is None and d.end_by == 'exit': return R.fail('died', 'the daemon stopped by itself (status %s)' % d.st, d.end)
        m = (tr.real(d.t) // (60 * U) + 1) * 60 * U - (tr.real(d.t) - d.t)
        while m + 12 * U < e:
            if m > d.t + 6 * U:
                for u in sc['users']:
                    if any(a - U < m + 2 * U and b > m - 14 * U for a, b in spans[u]): continue
                    h = [q for q in hist[u] if q[0] <= m][-1]
                    got = sorted(set(x.id for x in tr.jobs if owner[x.id] == u and m - U <= x.t < m + 12 * U))
                    R.ok(1, 'minute of a table'); R.cover('jobs of a %s table' % ('certain' if len(h[3]) == 1 else 'possible'))
                    if not any(sorted(q) == got for q in h[3]):
                        if not got and h[4]: R.fail('interrupted-reset', 'the table of %s is removed by an interrupted fcrontab -z or -n' % u, m); continue
                        return R.fail('jobs', 'in the minute at %.1f s the jobs of %s are %s, its table has %s' % (m / U, u, got, ' or '.join(str(sorted(q)) for q in h[3])), m)
            m += 60 * U
    # ---- nothing left behind
    for f in tr.files:
        t = f['t']
        if f['path'] not in (SPOOL, '/tmp') or 'ents' not in f: continue
        if any(a < t < b + .3 * U for u in spans for a, b in spans[u]): continue
        if any(x <= t for x in dirty): continue
        R.ok(1, 'directories compared')
        for n in f['ents']:
            if f['path'] == '/tmp' and n.startswith('fcr-') or n.endswith('.tmp'): return R.fail('left', 'the file %s/%s is left behind' % (f['path'], n), t)
        if f['path'] == '/tmp': continue
        for u in sc['users']:
            h = [q for q in hist[u] if q[0] <= t][-1]
            if len(h[2]) > 1 or len(h[3]) > 1 or h[1] > t - 14 * U or any(d.t > t - 14 * U or (d.end is not None and d.end > t - 14 * U) for d in tr.daemons if d.t <= t) or not live(tr, t): continue
            left = [n for n in f['ents'] if n in (u, 'new.' + u, 'rm.' + u, 'add.' + u)] if not h[3][0] and '0 0 1 1 * true' not in (h[2][0] or '') else [n for n in f['ents'] if n in ('new.' + u, 'rm.' + u, 'add.' + u)]
            if h[2][0] is None and u + '.orig' in f['ents']: left.append(u + '.orig')
            R.ok(1, 'spool directory of a user')
            if left: return R.fail('left', 'the files %s are left behind for %s (%s)' % (left, u, 'no job' if not h[3][0] else 'table in force'), t)
