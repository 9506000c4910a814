"""Plans, the simulator server and traces."""
import os, json, struct, subprocess, random, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT_ENV = ['PATH=/usr/sbin:/usr/bin:/sbin:/bin', 'HOME=/root', 'SHELL=/bin/sh', 'LANG=C']

def esc(s):
    if isinstance(s, str): s = s.encode('latin1')
    if not s: return '%'
    if s == b'-': return '%2D'
    return ''.join(chr(c) if (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123 or chr(c) in '/._-=,:+@*') else '%%%02X' % c for c in s)

USERS = [('root', 0, 0, '/root', '/bin/sh'), ('fcron', 90, 90, '/var/spool/fcron', '/bin/false'), ('daemon', 1, 1, '/', '/bin/false'),
         ('alice', 1000, 1000, '/home/alice', '/bin/sh'), ('bob', 1001, 1001, '/home/bob', '/bin/zsh'), ('carol', 1002, 100, '/home/carol', '/bin/sh'),
         ('ali', 1003, 1003, '/home/ali', '/bin/sh')]
GROUPS = [('root', 0, ''), ('fcron', 90, 'fcron'), ('users', 100, 'alice,carol'), ('audio', 29, 'alice,bob'), ('alice', 1000, ''), ('bob', 1001, ''), ('wheel', 10, 'root,alice'), ('ali', 1003, ''), ('daemon', 1, '')]
UID = {u[0]: u[1] for u in USERS}; GID = {u[0]: u[2] for u in USERS}
def gids(user): return ','.join(str(x) for x in [GID[user]] + [g[1] for g in GROUPS if user in g[2].split(',') and g[1] != GID[user]])

CONF = '''fcrontabs = /var/spool/fcron
pidfile = /var/run/fcron.pid
fifofile = /var/run/fcron.fifo
fcronallow = /etc/fcron.allow
fcrondeny = /etc/fcron.deny
shell = /usr/bin/sh
sendmail = /usr/sbin/sendmail
editor = /usr/bin/sensible-editor
'''

class Plan:
    def __init__(self, seed=1, rt=1700000000, end=86400, users=USERS, groups=GROUPS):
        self.head = []; self.boot = []; self.ops = []; self.faults = []; self.decs = []
        self.params = {'seed': seed, 'rt': rt, 'end': int(end * 1e6), 'log': 0}
        for u in users: self.head.append('user ' + ' '.join([u[0], str(u[1]), str(u[2]), esc(u[3]), u[4]]))
        for g in groups: self.head.append('group ' + ' '.join([g[0], str(g[1])] + ([g[2]] if g[2] else [])))
        self.tagn = 0; self.meta = {}
        self.std_image()
    def b(self, *a): self.boot.append('op -1 ' + ' '.join(a))
    def std_image(self):
        for d, u, g, m in [('/root', 0, 0, '700'), ('/home', 0, 0, '755'), ('/etc', 0, 0, '755'), ('/var/spool/fcron', 90, 90, '770'), ('/usr/bin', 0, 0, '755'), ('/usr/sbin', 0, 0, '755'), ('/bin', 0, 0, '755'), ('/plan', 0, 0, '755')]: self.b('mkdir', d, str(u), str(g), m)
        for u in USERS:
            if u[3].startswith('/home'): self.b('mkdir', u[3], str(u[1]), str(u[2]), '755')
        for p in ['/usr/bin/sh', '/bin/sh', '/bin/zsh', '/bin/bash']: self.b('write', p, '0', '0', '755', 'stub:sh')
        self.b('write', '/usr/sbin/sendmail', '0', '0', '755', 'stub:mail')
        self.b('write', '/usr/bin/sensible-editor', '0', '0', '755', 'stub:ed')
        self.b('write', '/usr/bin/ed', '0', '0', '755', 'stub:ed')
        self.b('write', '/bin/true', '0', '0', '755', 'stub:true')
        self.b('write', '/usr/bin/dynraw', '0', '0', '755', 'stub:dynraw')
        self.b('write', '/usr/sbin/fcron', '0', '0', '755', 'prog:fcron')
        self.b('write', '/usr/bin/fcrontab', '90', '90', '6755', 'prog:fcrontab')
        self.b('write', '/usr/bin/fcrondyn', '90', '90', '6755', 'prog:fcrondyn')
        self.b('write', '/usr/bin/fcronsighup', '0', '90', '4710', 'prog:fcronsighup')
        self.b('write', '/etc/fcron.conf', '0', '90', '640', esc(CONF))
        self.b('write', '/etc/fcron.allow', '0', '90', '640', esc('all\n'))
        self.b('write', '/etc/fcron.deny', '0', '90', '640', esc(''))
    def file0(self, path, data, uid=0, gid=0, mode='644'): self.b('write', path, str(uid), str(gid), mode, esc(data) if data else '')
    def op(self, t, *a):
        self.ops.append((int(round(t * 1e6)), ' '.join(str(x) for x in a))); return len(self.ops) - 1
    def write(self, t, path, data, uid=0, gid=0, mode='644'): self.op(t, 'write', esc(path), uid, gid, mode, esc(data) if data else '')
    def run(self, t, argv, user='root', name=None, cwd=None, env=None, stdin=None, umask='022', nice=0, uid=None):
        self.tagn += 1; tag = self.tagn
        u = dict((x[0], x) for x in USERS)[user]
        env = env if env is not None else (ROOT_ENV if user == 'root' else ['PATH=/usr/bin:/bin', 'HOME=' + u[3], 'USER=' + user, 'LOGNAME=' + user, 'SHELL=' + u[4]])
        self.op(t, 'run', tag, name or ('r%d' % tag), u[1], u[2], gids(user) or '-', esc(cwd or u[3] if cwd or user != 'root' else '/'), umask, nice, '-' if stdin is None else esc(stdin), *[esc(e) for e in env], '--', *[esc(a) for a in argv])
        return tag
    def daemon(self, t, args=(), name='d0', env=None, umask='022'): return self.run(t, ['/usr/sbin/fcron', '-f'] + list(args), 'root', name=name, cwd='/', env=env, umask=umask)
    def fcrontab(self, t, user, args, stdin=None, **k): return self.run(t, ['/usr/bin/fcrontab'] + list(args), user, stdin=stdin, **k)
    def install(self, t, user, table, name=None, **k): return self.run(t, ['/usr/bin/fcrontab', '-'], user, stdin=table if table else '', name=name, **k)
    def fcrondyn(self, t, user, cmd, **k): return self.run(t, ['/usr/bin/fcrondyn', '-x', cmd] , user, **k)
    def fault(self, who, sysn, frm, cnt, kind, arg=0, t0=None, t1=None):
        l = 'F %s %s %d %d %s %d' % (who, sysn, frm, cnt, kind, arg)
        if t0 is not None: l += ' %d' % int(t0 * 1e6) + (' %d' % int(t1 * 1e6) if t1 is not None else '')
        self.faults.append(l)
    def text(self, sched=None):
        L = ['%s %s' % (k, v) for k, v in self.params.items() if not (sched is not None and k in ('preempt', 'stall', 'pick'))]
        if sched is not None: L.append('sched explicit'); L += ['D ' + d for d in sched]
        L += self.head + self.boot
        for t, o in self.ops: L.append('op %d %s' % (t, o) if t is not None else '# removed')
        L += self.faults
        return '\n'.join(L) + '\n'

class Sim:
    def __init__(self, build): self.build = build; self.p = None
    def start(self):
        self.p = subprocess.Popen([os.path.join(self.build, 'sim'), self.build], stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd='/')
    def raw(self, text):
        if self.p is None or self.p.poll() is not None: self.start()
        b = text.encode('latin1')
        self.p.stdin.write(struct.pack('<Q', len(b)) + b); self.p.stdin.flush()
        n = struct.unpack('<Q', self._rd(8))[0]
        if not n: raise RuntimeError('simulator hung or died')
        return self._rd(n)
    def _rd(self, n):
        out = b''
        while len(out) < n:
            c = self.p.stdout.read(n - len(out))
            if not c: raise RuntimeError('simulator died')
            out += c
        return out
    def run(self, text):
        if not isinstance(text, str): text = text.text()
        return parse(self.raw(text))
    def close(self):
        if self.p: self.p.stdin.close(); self.p.wait()

def parse(b):
    return json.loads('[' + b.decode('latin1').strip().replace('\n', ',') + ']')
