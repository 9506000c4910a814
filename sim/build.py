#!/usr/bin/env python3
"""Build the simulated system from /repo's working tree: each fcron program becomes a shared
object whose libc calls go to the simulated operating system; sim is the simulator itself."""
import os, re, sys, hashlib, subprocess, fcntl, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
DEFAULT_OBJS = {
 'fcron': 'fcron cl subs mem save temp_file log database job conf u_list exe_list lavg_list env_list fcronconf mail filesubs select fcrondyn_svr suspend',
 'fcrontab': 'fcrontab cl subs mem save temp_file log fileconf allow read_string u_list env_list fcronconf mail filesubs',
 'fcrondyn': 'fcrondyn subs mem log allow read_string fcronconf mail filesubs',
 'fcronsighup': 'fcronsighup subs mem log allow fcronconf mail filesubs'}
DEFS = {'PIDFILE': '/var/run/fcron.pid', 'REBOOT_LOCK': '/var/run/fcron.reboot', 'SUSPEND_FILE': '/var/run/fcron.suspend',
 'FIFOFILE': '/var/run/fcron.fifo', 'ETC': '/etc', 'FCRON_SHELL': '/usr/bin/sh', 'FCRON_CONF': 'fcron.conf',
 'FCRONTABS': '/var/spool/fcron', 'FCRON_ALLOW': 'fcron.allow', 'FCRON_DENY': 'fcron.deny', 'SENDMAIL': '/usr/sbin/sendmail',
 'FCRON_EDITOR': '/usr/bin/sensible-editor', 'MAILDISPLAYNAME': 'Fcron Daemon', 'BINDIREX': '/usr/bin', 'DESTBIN': '/usr/bin'}
# (-Os: character arrays are not aligned, so that the guard follows the last one of a frame at once)
CFLAGS = '-fPIC -Os -g -w -std=gnu11 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=2 -fstack-protector-all -fno-builtin-printf -fno-builtin-fprintf -fno-builtin-puts -fno-builtin-putchar -fno-builtin-fputs -fno-builtin-fputc -fno-builtin-fwrite -fno-builtin-malloc -fno-builtin-strdup -fno-builtin-abort -fno-builtin-exit -DHAVE_CONFIG_H'.split()
# (database.c tests one bit past a bit string, within the same structure, before the test of the index)
BOUNDS = '-fsanitize=bounds,null -fsanitize-undefined-trap-on-error'.split()
# functions of the host library that are pure computations: used as they are
PURE = set('''strlen strnlen strcpy strncpy strcat strncat strcmp strncmp strcasecmp strncasecmp strchr strrchr strstr strspn strcspn strpbrk strtok_r memcpy memmove memset memcmp memchr
snprintf sprintf vsnprintf vsprintf sscanf __isoc99_sscanf __isoc23_sscanf strerror strsignal strcasestr nl_langinfo toupper tolower isalpha isdigit isspace isalnum isupper islower ispunct isprint isxdigit
__ctype_b_loc __ctype_toupper_loc __ctype_tolower_loc atoi atol atoll abs labs div ldiv difftime sigemptyset sigfillset sigaddset sigdelset sigismember htonl htons ntohl ntohs qsort bsearch
strlcpy strlcat explicit_bzero memccpy strchrnul llabs imaxabs basename __xpg_basename dirname stpcpy stpncpy bcopy bzero index rindex fmod floor ceil fabs gmtime_r timegm mempcpy memrchr rawmemchr strsep strcoll strverscmp ffs ffsl 
_setjmp setjmp longjmp siglongjmp __sigsetjmp lround round trunc isatty_dummy getpagesize sysconf _ITM_deregisterTMCloneTable _ITM_registerTMCloneTable __cxa_finalize __gmon_start__ _GLOBAL_OFFSET_TABLE_ gnu_dev_major gnu_dev_minor strtof dlopen_dummy'''.split())

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write('build step failed: %s\n%s\n' % (' '.join(cmd), r.stdout[-3000:]))
        raise SystemExit(3)
    return r.stdout

def config_h():
    defs = {}
    for l in open(os.path.join(HERE, 'config.defs')):
        m = re.match(r'#\s*define\s+(\w+)\s?(.*)', l)
        if m: defs[m.group(1)] = m.group(2)
    out = []
    for l in open(os.path.join(REPO, 'config.h.in')):
        m = re.match(r'#\s*undef\s+(\w+)', l)
        if m:
            n = m.group(1)
            out.append('#define %s %s\n' % (n, defs[n]) if n in defs else '/* #undef %s */\n' % n)
        else: out.append(l)
    return ''.join(out)

def objlists():
    mk = open(os.path.join(REPO, 'Makefile.in')).read().replace('\\\n', ' ')
    v = dict(re.findall(r'^(\w+)\s*:=\s*(.*)$', mk, re.M))
    def get(n): return [o[:-2] for o in v.get(n, '').split() if o.endswith('.o')]
    L = {'fcron': get('OBJSD_MAIN') + get('OBJSD_NO_MAIN') or get('OBJSD'), 'fcrontab': get('OBJSTAB'), 'fcrondyn': get('OBJSDYN'), 'fcronsighup': get('OBJSIG')}
    for k in L:
        if not L[k]: L[k] = DEFAULT_OBJS[k].split()
    return L

def tree_hash():
    h = hashlib.sha256()
    fs = sorted(f for f in os.listdir(REPO) if f.endswith(('.c', '.h')) and f != 'config.h') + ['config.h.in', 'Makefile.in']
    for f in fs:
        p = os.path.join(REPO, f)
        if os.path.isfile(p): h.update(f.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    for f in sorted(os.listdir(HERE)):
        if f.endswith(('.c', '.h', '.defs')) or f == 'build.py': h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:16]

def build(log=sys.stderr, cov=False):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = tree_hash() + ('c' if cov else '')
    out = os.path.join(BUILD, h)
    if os.path.exists(os.path.join(out, 'ok')): os.utime(out); return out
    for d in sorted(os.listdir(BUILD), key=lambda d: os.path.getmtime(os.path.join(BUILD, d))):            # the oldest first
        p = os.path.join(BUILD, d)
        if os.path.isdir(p) and d != h and len([x for x in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, x))]) > 6: shutil.rmtree(p, ignore_errors=True)
    tmp = out + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(os.path.join(tmp, 'gen'))
    open(os.path.join(tmp, 'gen', 'config.h'), 'w').write(config_h())
    defs = ['-D%s="%s"' % (k, v) for k, v in DEFS.items()]
    lists = objlists()
    srcs = sorted(set(sum(lists.values(), [])))
    cc = 'gcc'
    jobs = []
    flags = CFLAGS + defs + ['-I' + os.path.join(tmp, 'gen'), '-I' + REPO, '-I/usr/include/selinux']
    ex = cf.ThreadPoolExecutor(8)
    fut = [ex.submit(run, [cc, '-c'] + flags + ([] if s == 'database' else BOUNDS) + [os.path.join(REPO, s + '.c'), '-o', os.path.join(tmp, s + '.raw.o')]) for s in srcs]
    fut.append(ex.submit(run, [cc, '-c', '-fPIC', '-O2', '-g', '-w', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-fno-stack-protector', '-fno-builtin', os.path.join(HERE, 'plibc.c'), '-o', os.path.join(tmp, 'plibc.raw.o')]))
    fut.append(ex.submit(run, [cc, '-O2', '-g', '-w', '-fno-stack-protector', '-rdynamic', os.path.join(HERE, 'kern.c'), '-o', os.path.join(tmp, 'sim'), '-ldl']))
    for f in fut: f.result()
    nm = run(['nm', '--defined-only', os.path.join(tmp, 'plibc.raw.o')])
    have = set(l.split()[-1][2:] for l in nm.splitlines() if re.search(r' [TDBR] p_', l))
    m = os.path.join(tmp, 'map')
    with open(m, 'w') as f:
        for s in sorted(have):
            if s in ('start', 'arena', 'arena_end', 'brk', 'live_bytes', 'live_blocks'): continue
            f.write('%s p_%s\n' % (s, s))
    # within plibc, main is the program's; libc names inside plibc stay the host's
    shutil.copy(os.path.join(tmp, 'plibc.raw.o'), os.path.join(tmp, 'plibc.o'))
    for s in srcs: run(['objcopy', '--redefine-syms=' + m, os.path.join(tmp, s + '.raw.o'), os.path.join(tmp, s + '.o')])
    for prog, objs in lists.items():
        of = [os.path.join(tmp, o + '.o') for o in objs]
        defined, undef = set(), set()
        for l in run(['nm'] + of).splitlines():
            p = l.split()
            if len(p) == 2 and p[0] in 'Uw': undef.add(p[1])
            elif len(p) == 3 and p[1] in 'TDBRCVW': defined.add(p[2])
        miss = [s for s in sorted(undef - defined) if not s.startswith('p_') and s not in PURE and not s.startswith('k_')]
        with open(os.path.join(tmp, prog + '_stub.c'), 'w') as f:
            f.write('extern void k_note(const char*,const char*);extern void k_abort(int);\n')
            for s in miss: f.write('void %s(void){k_note("UNMODELLED","%s");k_abort(6);}\n' % (s, s))
        if miss: log.write('note: %s uses unmodelled functions: %s\n' % (prog, ' '.join(miss)))
        run([cc, '-shared', '-fPIC', '-w', '-fno-builtin', '-Wl,-Bsymbolic', '-Wl,-z,now', '-o', os.path.join(tmp, prog + '.so')] + of + [os.path.join(tmp, 'plibc.o'), os.path.join(tmp, prog + '_stub.c')])
    for f in os.listdir(tmp):
        if f.endswith('.o') or f == 'gen' and False: os.unlink(os.path.join(tmp, f))
    open(os.path.join(tmp, 'ok'), 'w').write('ok')
    shutil.rmtree(out, ignore_errors=True); os.rename(tmp, out)
    return out

if __name__ == '__main__':
    print(build())
