"""P15: the output of a job is mailed complete, to the right person, exactly when asked."""
from common import *
QUICK = 2000
U = 1000000
MIN = ['faults', 'ops', 'jobs']
UNSAFE = ['-x', 'a;b', 'a|b', '-bob@x']

def pattern(job, n):
    out = b''; k = 0
    while len(out) < n:
        l = b'J%d line %d abcdefghijklmnopqrstuvwxyz\n' % (job, k); k += 1
        if len(l) > n - len(out): l = l[:n - len(out) - 1] + b'\n'
        out += l
    return out

def gen_cmd(rng, jid):
    """a command, the bytes it writes, its wait status, seconds it lasts"""
    toks = []; out = b''; d = 0.; st = 0; hold = 0
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6])):
        k = rng.random()
        if k < .3: n = rng.choice([1, 5, 100, 195, 196, 197, 1000, 5000, 40000]); toks.append('o%d' % n); out += pattern(jid, n)
        elif k < .42: n = rng.choice([1, 60, 300, 4096]); toks.append('e%d' % n); out += pattern(jid, n)
        elif k < .6:
            n = rng.choice([1, 3, 20, 194, 195, 196, 400]); b = bytes(rng.choice([0, 10, 13, 65, 97, 126, 200, 255, 46, 32, 9]) if rng.random() < .5 else rng.randint(33, 126) for _ in range(n))
            if rng.random() < .3: b = b.replace(b'\0', b'z')
            if rng.random() < .3: b = b.replace(b'\n', b'y')
            e = ''.join(chr(c) if 48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123 else '%%%02x' % c for c in b)
            if len(e) < 700: toks.append('n' + e); out += b
        elif k < .75: n = rng.choice([1, 2, 5]); toks.append('d%d' % n); d += n
        elif k < .85: n = rng.choice([1, 10, 300]); toks.append('m%d' % n); d += n / 1000
        elif k < .9 and not hold: hold = rng.choice([1, 4]); toks.append('F%d' % hold); hold += d
    if rng.random() < .35: st = rng.choice([1, 2, 3, 127, 255, 77]); toks.append('x%d' % st); st <<= 8
    elif rng.random() < .1: s = rng.choice([9, 15, 11, 1]); toks.append('k%d' % s); st = s
    c = 'J%d' % jid
    while toks and len(' '.join(toks)) > 850: return gen_cmd(rng, jid)
    return ' '.join([c] + toks), out.decode('latin1'), st, max(d, hold), hold > d

def gen(rng, i, tier):
    end = rng.choice([200, 320]); bg = rng.random() < .3
    users = rng.sample(['alice', 'bob', 'carol', 'ali'], rng.choice([1, 2])) + (['root'] if rng.random() < .5 else [])
    sc = new_sc(rng, end, users=users, bg=bg, daemon_may_die=bg, files={}, conf=rng.choice([None, None, None, '', 'Jo "the" X', 'A.B', 'Plain']))
    sc['params']['pipecap'] = rng.choice([65536, 65536, 8192, 4096])
    jid = 0
    for u in users:
        D = dict(mail=1, force=0, err=0, to=u, frm=None, stdout=0, runas=None); L = []; env = {}
        def opts(n, allow_runas):
            o = []; d = {}
            for _ in range(n):
                k = rng.choice(['mail', 'mail0', 'force', 'force0', 'err', 'err0', 'to', 'to', 'frm', 'stdout', 'runas', 'toempty', 'frmempty'])
                if k == 'mail': o.append(rng.choice(['mail', 'mail(1)', 'm(yes)', 'mail(true)'])); d.update(mail=1)
                elif k == 'mail0': o.append(rng.choice(['mail(no)', 'm(0)', 'mail(false)'])); d.update(mail=0, force=0)
                elif k == 'force': o.append('forcemail'); d.update(force=1, mail=1)
                elif k == 'force0': o.append('forcemail(0)'); d.update(force=0)
                elif k == 'err': o.append(rng.choice(['erroronlymail', 'erroronlymail(1)'])); d.update(err=1)
                elif k == 'err0': o.append('erroronlymail(false)'); d.update(err=0)
                elif k == 'to': v = rng.choice(['alice', 'bob', 'root', 'x@y.org', 'nobody'] + UNSAFE); o.append('mailto(%s)' % v); d.update(to=v, mail=1)
                elif k == 'frm': v = rng.choice(['alice', 'ops@example.org', 'carol']); o.append('mailfrom(%s)' % v); d.update(frm=v)
                elif k == 'toempty': o.append('mailto()'); d.update(mail=0, force=0)
                elif k == 'frmempty': o.append('mailfrom()'); d.update(frm=None)
                elif k == 'stdout': o.append('stdout'); d.update(stdout=1)
                elif k == 'runas' and allow_runas: v = rng.choice(['alice', 'bob', 'carol']); o.append('runas(%s)' % v); d.update(runas=v)
            return o, d
        for _ in range(rng.choice([1, 2, 4, 6])):
            k = rng.random()
            if k < .12: o, d = opts(rng.choice([1, 2]), u == 'root'); D = dict(D, **d); (L.append('!' + ','.join(o)) if o else None)
            elif k < .17: L.append('!reset'); D = dict(mail=1, force=0, err=0, to=u, frm=None, stdout=0, runas=None)
            elif k < .24: v = rng.choice(['alice', 'bob', 'a@b.c', '""']); L.append('MAILTO=' + v); D = dict(D, mail=0, force=0) if v == '""' else dict(D, to=v, mail=1)
            elif k < .28: v = rng.choice(['alice', 'q@b.c']); L.append('MAILFROM=' + v); D = dict(D, frm=v)
            elif k < .36: n = rng.choice(['CONTENT_TYPE', 'CONTENT_TRANSFER_ENCODING', 'FOO']); v = rng.choice(['text/html; charset=utf-8', 'x y', '8bit']); L.append('%s=%s' % (n, v)); env[n] = v
            elif k < .38:
                for q in range(40): L.append('BIG%d=%s' % (q, 'x' * 990)); env['BIG%d' % q] = 'x' * 990
            else:
                jid += 1; o, d = opts(rng.choice([0, 0, 1, 1, 2, 3]), u == 'root'); J = dict(D, **d); cmd, out, st, dur, holds = gen_cmd(rng, jid)
                kind = rng.choice(['&', '&', '@'])
                o += rng.choice([[], [], ['serial'], ['exesev'], ['nolog']])
                sp = ('& * * * * * ' if not o else '&%s * * * * * ' % ','.join(o)) if kind == '&' else '@%s 1 ' % ','.join(o)
                if len(sp + cmd) > 1000: continue
                L.append(sp + cmd); sc['jobs'].append(dict(id=jid, user=u, cmd=cmd, out=out, st=st, dur=dur, holds=holds, line=L[-1][:120], serial='serial' in o, **J))
        for j in sc['jobs']:
            if j['user'] == u: j['env'] = env
        sc['files'][u] = ''.join(l + '\n' for l in L)
    # a witness, whose runs nothing may delay
    sc['witness'] = jid + 1
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(['mode1', 'mode2', 'nomailer', 'full', 'badexec', 'restart', 'kill9', 'dynrun', 'noise', 'usr1', 'fault', 'killjob'])
        t = round(rng.uniform(25, end - 40), 2); sc['ops'].append(dict(t=t, k=k, d=rng.choice([20, 60, 100]), a=rng.randint(0, 6), s=rng.choice(['execve', 'dup2', 'lseek', 'write', 'open', 'unlink', 'fork', 'pipe', 'pam']), e=rng.choice([5, 12, 28, 2])))
    sc['daemon_may_die'] = bg or any(o['k'] == 'kill9' for o in sc['ops'])
    return sc

def build(sc):
    p = base(sc)
    if sc['conf'] is not None: p.file0('/etc/fcron.conf', CONF + 'maildisplayname = %s\n' % sc['conf'], 0, 90, '640')
    n = 0
    def boot(t, n):
        if sc['bg']: p.run(t, ['/usr/sbin/fcron', '-b', '-l', '5'], 'root', name='d%d' % n, cwd='/')
        else: p.daemon(t, ['-l', '5'], name='d%d' % n)
    boot(5, 0)
    for k, u in enumerate(sc['files']): p.install(1 + k * .1, u, sc['files'][u])
    wu = [u for u in ['ali', 'carol', 'bob', 'alice'] if u not in sc['files']][0]
    p.install(2, wu, '&mail(no) * * * * * J%d\n' % sc['witness'])
    for o in sc['ops']:
        t, k = o['t'], o['k']
        if k in ('mode1', 'mode2'): p.op(t, 'mailmode', k[-1]); p.op(t + o['d'], 'mailmode', 0)
        elif k == 'nomailer': p.op(t, 'rm', '/usr/sbin/sendmail'); p.write(t + o['d'], '/usr/sbin/sendmail', 'stub:mail', 0, 0, '755')
        elif k == 'badexec': p.write(t, '/usr/sbin/sendmail', 'stub:mail', 0, 0, '644'); p.write(t + o['d'], '/usr/sbin/sendmail', 'stub:mail', 0, 0, '755')
        elif k == 'full': p.op(t, 'disk', 200); p.op(t + o['d'], 'disk', -1)
        elif k == 'restart' and n == 0: n += 1; p.op(t, 'sig', 'daemon', 15); boot(t + 15, n)
        elif k == 'kill9' and n == 0: n += 1; p.op(t, 'sig', 'daemon', 9); boot(t + 2, n)
        elif k == 'dynrun': p.fcrondyn(t, 'root', 'run %d' % o['a'])
        elif k == 'killjob' and sc['jobs']: p.op(t, 'sigjob', sc['jobs'][o['a'] % len(sc['jobs'])]['id'], 15)
        elif k == 'noise': p.fcrondyn(t, 'root', 'ls')
        elif k == 'usr1': p.op(t, 'sig', 'daemon', 10)
        elif k == 'fault': p.fault('d0.1.*' if sc['bg'] else 'd0.[0-9]*', o['s'], 1, 50, 'E', o['e'], t, t + o['d'])
    return p

def check(sc, tr, R):
    J = {j['id']: j for j in sc['jobs']}; dist = any(o['k'] in ('mode1', 'mode2', 'nomailer', 'full', 'badexec', 'fault', 'kill9') for o in sc['ops'])
    windows = [(o['t'] * U - U, (o['t'] + o['d'] + (45 if o['k'] == 'mode2' else 6)) * U) for o in sc['ops'] if o['k'] in ('mode1', 'mode2', 'nomailer', 'full', 'badexec', 'fault')]
    slow = [(o['t'] * U - U, (o['t'] + o['d'] + 60) * U) for o in sc['ops'] if o['k'] == 'mode2']
    def near(t): return any(a <= t <= b for a, b in windows)
    by = {}
    for m in tr.mails: by.setdefault(m['p'], []).append(m)
    inst = {j.p.rsplit('.', 1)[0]: j for j in tr.jobs}
    hdr = {'': '', None: 'Fcron Daemon', 'Jo "the" X': '"Jo \\"the\\" X"', 'A.B': '"A.B"', 'Plain': 'Plain'}[sc['conf']]
    killed = [o['t'] * U for o in sc['ops'] if o['k'] == 'killjob']
    for p, ms in by.items():
        if p not in inst:
            if dist: continue
            return R.fail('stray', 'a mail which is not that of a job: %r' % ms[0]['data'][:200], ms[0]['t'])
        if len(ms) > 1: return R.fail('twice', 'J%d: %d mails for one execution' % (inst[p].id, len(ms)), ms[1]['t'])
    for p, jb in inst.items():
        j = J.get(jb.id); ms = by.get(p, [])
        if jb.id == sc['witness']:
            if ms: return R.fail('unwanted', 'J%d has mail(no) but a mail is sent' % jb.id, ms[0]['t'])
            continue
        if j is None: return R.fail('unknown', 'job J%d' % jb.id, jb.t)
        if jb.end is None: 
            if ms and not j['holds']: return R.fail('early', 'J%d is mailed before it ends' % jb.id, ms[0]['t'])
            continue
        st = jb.st; what = 'J%d (%s) of %s' % (jb.id, j['line'], j['user'])
        fd_out = j['stdout'] and not sc['bg']
        want = j['mail'] and not fd_out and (j['force'] or (j['out'] != '' and not j['err']) or st != 0)
        if j['force'] and j['err'] and st == 0: want = None
        cut = st is not None and (st & 127) and any(abs(k - jb.end) < 2 * U for k in killed)
        if cut and not j['force'] and st == 0: want = None
        if not ms:
            if want and not near(jb.end) and not near(jb.t) and not near(jb.end + j['dur'] * U) and jb.end + (j['dur'] + 5) * U < tr.T: return R.fail('no-mail', '%s: its output (%d bytes, status %s) is not mailed' % (what, len(j['out']), st), jb.end)
            R.ok(1, 'no mail'); continue
        m = ms[0]
        if want is False: return R.fail('unwanted', '%s: a mail is sent although it wrote %d bytes and its status is %s' % (what, len(j['out']), st), m['t'])
        h, _, body = m['data'].partition('\n\n'); H = {}
        for l in h.split('\n'):
            a, _, b = l.partition(': '); H.setdefault(a, []).append(b)
        to = j['to'] if j['to'] not in UNSAFE else j['user']
        frm = (j['frm'] if j['frm'] else j['runas'] or j['user'])
        full = lambda x: x if '@' in x else x + '@simhost'
        bad = near(jb.end) or near(m['t']) or near(jb.t) or near(jb.end + j['dur'] * U)
        if bad and m['argv'][-1] == to: R.cover('mail under fault'); continue
        if m['argv'] != ['/usr/sbin/sendmail', '-Ffcron', '-odi', to]: return R.fail('recipient', '%s: mailer called with %r instead of recipient %s' % (what, m['argv'], to), m['t'])
        if H.get('To') != [full(to)]: return R.fail('recipient', '%s: header To is %r' % (what, H.get('To')), m['t'])
        F = '%s <%s>' % (hdr, full(frm)) if hdr else full(frm) + ' (fcron)'
        if H.get('From') != [F]: return R.fail('from', '%s: header From is %r instead of %r' % (what, H.get('From'), F), m['t'])
        if H.get('Subject') != ['fcron <%s@simhost> %s' % (j['user'], j['cmd'])]: return R.fail('subject', '%s: header Subject is %r' % (what, H.get('Subject')), m['t'])
        ct = j['env'].get('CONTENT_TYPE')
        if ct and H.get('Content-Type') != [ct]: return R.fail('content-type', '%s: Content-Type is %r instead of %r' % (what, H.get('Content-Type'), ct), m['t'])
        if not ct and not (H.get('Content-Type') or [''])[0].startswith('text/plain; charset='): return R.fail('content-type', '%s: Content-Type is %r' % (what, H.get('Content-Type')), m['t'])
        ce = j['env'].get('CONTENT_TRANSFER_ENCODING')
        if (H.get('Content-Transfer-Encoding') or [None])[0] != ce: return R.fail('content-type', '%s: Content-Transfer-Encoding is %r' % (what, H.get('Content-Transfer-Encoding')), m['t'])
        if near(jb.end) or near(m['t']) or near(jb.t) or near(jb.end + j['dur'] * U): R.cover('mail under fault'); continue
        msg = ''
        if st & 127: msg = "Job '%s' terminated due to signal %d (mailing output)" % (j['cmd'], st & 127)
        elif st: msg = "Job '%s' terminated (exit status: %d) (mailing output)" % (j['cmd'], st >> 8)
        if cut:
            if not body.endswith(msg) or not j['out'].startswith(body[:len(body) - len(msg)]): return R.fail('content', '%s: killed, its mail holds %r' % (what, body[:200]), m['t'])
        elif body != j['out'] + msg and not (body.startswith(j['out']) and all(x in body[len(j['out']):] for x in ([str(st & 127)] if st & 127 else [str(st >> 8)] if st else [])) and (st or body == j['out'])):
            n = next((k for k in range(min(len(body), len(j['out']))) if body[k] != j['out'][k]), min(len(body), len(j['out'])))
            return R.fail('content', '%s: the mail holds %d bytes instead of %d, first difference at %d: %r instead of %r' % (what, len(body), len(j['out'] + msg), n, body[n:n + 40], (j['out'] + msg)[n:n + 40]), m['t'])
        lat = m['t'] - jb.end - (j['dur'] * U if j['holds'] else 0)
        if lat > 3 * U and not sc['params'].get('stall'): return R.fail('late', '%s: mailed %.1f s after its end' % (what, lat / U), m['t'])
        R.ok(3, 'mail'); R.cover('mail of %s' % ('a killed job' if st & 127 else 'a failed job' if st else 'a job'))
    # the witness runs at each minute
    W = sorted(j.t for j in tr.of(sc['witness']))
    for d in tr.daemons:
        if (d.st == 2816 or sc['bg']) and d.name != 'd0' and any(o['k'] == 'kill9' for o in sc['ops']): return          # (a child of the killed daemon still holds the lock: see P20)
    r0 = sc['rt']; restarts = [o['t'] for o in sc['ops'] if o['k'] in ('restart', 'kill9')]; fk = [o for o in sc['ops'] if o['k'] == 'fault' or o['k'] == 'full']
    m = (r0 // 60 + 1) * 60
    while m - r0 < sc['end'] - 5:
        t = m - r0
        if t > 14 and not any(x - 1 <= t <= x + 90 for x in restarts) and not any(o['t'] - 1 <= t <= o['t'] + o['d'] + 5 for o in fk):
            n = sum(1 for w in W if t * U <= w <= (t + 3) * U)
            if n < 1: return R.fail('blocked', 'the job J%d of another user, due at %d s, is run %d times within 3 s' % (sc['witness'], t, n), t * U)
            R.ok(1, 'witness')
        m += 60
