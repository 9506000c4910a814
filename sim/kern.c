/* The simulated operating system: processes, scheduler, virtual clocks, file system with
 * crash semantics, pipes, unix sockets, signals and fault injection.  One run executes one
 * plan (see plan_parse) and is a pure function of that plan and of the programs' code. */
#include "kern.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <ctype.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <setjmp.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/file.h>
#include <sys/timerfd.h>
#include <fnmatch.h>
#include <limits.h>
#include <security/pam_appl.h>

#define NPROC 700
#define FDMAX 256
#define NARG 128
#define LEN(a) ((int)(sizeof(a) / sizeof(*(a))))

/* ================================================================ types */
typedef struct Ino Ino;
typedef struct Dent { char *name; Ino *ino; struct Dent *next; } Dent;
typedef struct WOp { struct WOp *next; i64 t; int trunc; long off, len; char *data; } WOp;
typedef struct Sock Sock;
struct Ino {
    int num, type, mode, uid, gid, nlink, dev;     /* type: S_IFxxx; dev: 0 durable, 1 tmpfs */
    char *data; long len, cap;
    char *sdata; long slen;                         /* content known to be on the disk */
    WOp *w, *wtail;                                 /* writes since then */
    Dent *ents; char *target; Sock *listener;
    i64 mtime, ctime;
    struct File *lock_ex; int nsh; int existed;     /* existed: its creation is committed */
};
enum { F_REG, F_DIR, F_PR, F_PW, F_SOCK, F_TFD, F_NULL, F_DATA, F_CAP, F_TTY };
typedef struct Pipe { char *b; int cap, len, rd, wr; } Pipe;
struct Sock {
    int state;                        /* 0 new 1 bound 2 listen 3 connected 4 closed */
    Sock *peer; char *b; int cap, len; int rdshut, wrshut, peergone;
    Sock *q[64]; int nq, backlog; int refs;
    int ppid, puid, pgid; int seqpacket; Ino *node; struct Cap *capx;
};
typedef struct Cap { char *b; int len, cap; } Cap;
typedef struct File {
    int type, ref, flags; long pos; Ino *ino; Pipe *pipe; Sock *sock; Cap *cap; char *data; int dlen;
    int lockt; int tfd_set; u64 tfd_gen; i64 tfd_at; char path[256];
    char **snap; int nsnap; int tok; int noecho;
} File;
typedef struct Prog {
    char name[32]; void *dl; int nseg; struct { char *a; size_t n; char *pristine; } seg[8];
    void (*start)(int, char **, char **); char **arena, **arena_end, **brk; long *live_bytes, *live_blocks;
    char *heap, *heap_end, *stk, *stk_top; struct Proc *owner;
} Prog;
enum { ST_FREE, ST_RUN, ST_WAIT, ST_ZOMB };
enum { W_NONE, W_SLEEP, W_READ, W_WRITE, W_SELECT, W_POLL, W_CHILD, W_LOCK, W_ACCEPT, W_CONNECT, W_SUSP };
typedef struct Proc {
    int idx, pid, ppid, pgid, sid; char name[64]; int nchild;
    int ruid, euid, suid, rgid, egid, sgid, ng; gid_t groups[32]; int umask, nice;
    Ino *cwd; char cwdp[256];
    File *fd[FDMAX]; unsigned char cx[FDMAX];
    struct sigaction sa[65]; u64 pend, blk;
    int state, stopped, status; i64 wake; u64 ready; int isready;
    int wk; File *wf; int wpid, wlk; fd_set wr, ww; int wn; struct pollfd wp[64]; int wres;
    Prog *prog; void (*nat)(struct Proc *); char *nstk; void *rsp; int fresh;
    char *img[8]; char *iheap; size_t nheap, capheap; char *istk; size_t nstk_, capstk;
    int argc; char *argv[NARG + 1]; char *envp[NARG + 1]; char exe[256];
    long nsys; int wantfork; int forkret; i64 alarm_at; i64 stall; int shortn; int killafter, crashafter;
    int tag; Cap *cout, *cerr; i64 started; int isvfork; int nmalloc; i64 cputime; long faultn;
    int job; int depth;
} Proc;

/* ================================================================ globals */
static Proc procs[NPROC]; static int nprocs; static Proc *cur;
static int next_pid = 2;
static Prog progs[8]; static int nprogs;
static i64 now_us, rt_base, rt_off, boot_off; static i64 sys_cost = 20; static u64 clkset_gen;
static void *sched_rsp; static u64 ready_seq; static jmp_buf sched_jmp;
static i64 t_end = 86400LL * 1000000; static long max_steps = 3000000; static long steps;
static u64 seed; static u64 thash = 1469598103934665603ULL;
static int want_crash, done, logon; static char endwhy[64] = "end";
static u64 preempt_ppm, stall_ppm, pick_ppm; static i64 stall_max = 1000000;
static int fdlimit = FDMAX; static long diskfree = -1; static int diskmode; static int forklimit;
static double lavg[3]; static int lavgn = 3; static int pipe_cap = 65536, sock_cap = 212992;
static int sched_explicit, booted = 0; static long commit_us = 5000000, wb_us = 30000000;
static int keep_journal = -1; static i64 crash_key; static int nproc_limit = 600;
SimUser sim_users[64]; int sim_nusers; SimGroup sim_groups[64]; int sim_ngroups;
static char *pam_rule[64]; static int npam;
static FILE *tr; static char *trbuf; static size_t trlen;
static u64 nfault_fired[32]; static u64 stat_sys, stat_switch, stat_preempt, stat_stall;
static u64 stateset[4096]; static int nstate;

static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33; return x; }
static u64 hstr(const char *s) { u64 h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }
static void hx(u64 v) { thash = (thash ^ v) * 1099511628211ULL; thash ^= thash >> 29; }
static i64 rtime(void) { return rt_base + rt_off + now_us; }

/* ================================================================ trace */
static void jstr(const char *s, long n)
{
    fputc('"', tr);
    for (long i = 0; n < 0 ? s[i] != 0 : i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { fputc('\\', tr); fputc(c, tr); }
        else if (c < 32 || c > 126) fprintf(tr, "\\u%04x", c);
        else fputc(c, tr);
    }
    fputc('"', tr);
}
static u64 evseq;
static void ev_begin(const char *type)
{
    hx(hstr(type)); hx(now_us); if (cur) hx(hstr(cur->name));
    fprintf(tr, "{\"e\":\"%s\",\"t\":%ld,\"r\":%ld,\"n\":%lu", type, (long)now_us, (long)rtime(), (unsigned long)evseq++);
}
static void ev_s(const char *k, const char *s) { fprintf(tr, ",\"%s\":", k); if (s) { hx(hstr(s)); jstr(s, -1); } else fputs("null", tr); }
static void ev_sn(const char *k, const char *s, long n) { fprintf(tr, ",\"%s\":", k); for (long i = 0; i < n; i++) thash = (thash ^ (unsigned char)s[i]) * 1099511628211ULL; jstr(s, n); }
static void ev_i(const char *k, long v) { hx(v); fprintf(tr, ",\"%s\":%ld", k, v); }
static void ev_end(void) { fputs("}\n", tr); }
static void ev_proc(Proc *p) { ev_i("pid", p->pid); ev_s("p", p->name); }
static void die(const char *m) { fprintf(stderr, "simulator error: %s (proc %s t=%ld)\n", m, cur ? cur->name : "-", (long)now_us); _exit(3); }

/* ================================================================ plan */
typedef struct Op { i64 t; char *a[NARG]; int n; int idx; int fired; } Op;
static Op *ops; static int nops, opcap; static int opnext;
typedef struct Fault { char *who, *sys, *kind; long from, cnt, arg, seen, tok; int fired; i64 t0, t1; } Fault;
static Fault faults[256]; static int nfaults;
typedef struct Dec { u64 key; int kind; i64 arg; } Dec;
static Dec *decs; static int ndecs, deccap;
static char *unesc(const char *s)
{
    if (s[0] == '%' && !s[1]) return strdup("");
    char *o = malloc(strlen(s) + 1), *q = o;
    for (; *s; s++) if (*s == '%' && isxdigit(s[1]) && isxdigit(s[2])) { char h[3] = { s[1], s[2], 0 }; *q++ = strtol(h, NULL, 16); s += 2; } else *q++ = *s;
    *q = 0; return o;
}
static long unesc_len(const char *s) { long n = 0; if (s[0] == '%' && !s[1]) return 0; for (; *s; s++) { if (*s == '%' && isxdigit(s[1]) && isxdigit(s[2])) s += 2; n++; } return n; }
static int cmpop(const void *a, const void *b) { const Op *x = a, *y = b; return x->t < y->t ? -1 : x->t > y->t ? 1 : x->idx - y->idx; }
static u64 deckey(const char *name, long nsys, int kind) { return mix(hstr(name) ^ mix(nsys * 8 + kind)); }
static void plan_line(char *l)
{
    char *a[NARG]; int n = 0;
    for (char *q = strtok(l, " \n"); q && n < NARG - 1; q = strtok(NULL, " \n")) a[n++] = q;
    if (!n || a[0][0] == '#') return;
#define IS(x) !strcmp(a[0], x)
    if (IS("seed")) seed = strtoull(a[1], NULL, 10);
    else if (IS("rt")) rt_base = atoll(a[1]) * 1000000 + (n > 2 ? atoll(a[2]) : 0);
    else if (IS("end")) t_end = atoll(a[1]);
    else if (IS("maxsteps")) max_steps = atol(a[1]);
    else if (IS("syscost")) sys_cost = atoll(a[1]);
    else if (IS("preempt")) preempt_ppm = atoll(a[1]);
    else if (IS("pick")) pick_ppm = atoll(a[1]);
    else if (IS("stall")) { stall_ppm = atoll(a[1]); stall_max = atoll(a[2]); }
    else if (IS("sched")) sched_explicit = !strcmp(a[1], "explicit");
    else if (IS("fdlimit")) fdlimit = atoi(a[1]);
    else if (IS("pipecap")) pipe_cap = atoi(a[1]);
    else if (IS("sockcap")) sock_cap = atoi(a[1]);
    else if (IS("commit")) { commit_us = atoll(a[1]); wb_us = atoll(a[2]); }
    else if (IS("log")) logon = atoi(a[1]);
    else if (IS("pam")) pam_rule[npam++] = strdup(a[1]);
    else if (IS("user")) { SimUser *u = &sim_users[sim_nusers++]; u->name = unesc(a[1]); u->uid = atoi(a[2]); u->gid = atoi(a[3]); u->dir = unesc(a[4]); u->shell = unesc(a[5]); }
    else if (IS("group")) { SimGroup *g = &sim_groups[sim_ngroups++]; g->name = unesc(a[1]); g->gid = atoi(a[2]); g->members = n > 3 ? unesc(a[3]) : ""; }
    else if (IS("F")) {   /* F who sys from cnt kind arg [t0 t1] */
        Fault *f = &faults[nfaults++]; f->who = strdup(a[1]); f->sys = strdup(a[2]); f->from = atol(a[3]); f->cnt = atol(a[4]); f->kind = strdup(a[5]); f->arg = n > 6 ? atol(a[6]) : 0;
        f->t0 = n > 7 ? atoll(a[7]) : 0; f->t1 = n > 8 ? atoll(a[8]) : INT64_MAX;
    }
    else if (IS("D")) {   /* D name nsys kind arg */
        if (ndecs == deccap) decs = realloc(decs, sizeof *decs * (deccap = deccap ? deccap * 2 : 64));
        decs[ndecs].key = deckey(a[1], atol(a[2]), a[3][0] & 7); decs[ndecs].kind = a[3][0]; decs[ndecs].arg = atoll(a[4]); ndecs++;
    }
    else if (IS("op")) {
        if (nops == opcap) ops = realloc(ops, sizeof *ops * (opcap = opcap ? opcap * 2 : 64));
        Op *o = &ops[nops]; memset(o, 0, sizeof *o); o->t = atoll(a[1]); o->idx = nops; nops++;
        for (int i = 2; i < n; i++) o->a[o->n++] = strdup(a[i]);
    }
    else { fprintf(stderr, "bad plan line: %s\n", a[0]); _exit(3); }
}

/* ================================================================ file system */
static Ino *rootino; static int next_ino = 10; static Ino **allino; static int nino, capino;
typedef struct Undo { i64 t; int kind; Ino *dir, *ino, *dir2, *old; char *name, *name2; int a, b, c; } Undo;
static Undo *jrn; static int njrn, capjrn;
enum { U_ADD, U_DEL, U_REN, U_ATTR };
static Ino *mkino(int type, int mode, int uid, int gid, int dev)
{
    Ino *i = calloc(1, sizeof *i); i->num = next_ino++; i->type = type; i->mode = mode; i->uid = uid; i->gid = gid; i->dev = dev;
    i->mtime = i->ctime = rtime();
    if (nino == capino) allino = realloc(allino, sizeof *allino * (capino = capino ? capino * 2 : 4096));
    allino[nino++] = i; return i;
}
static Dent *dfind(Ino *d, const char *n) { for (Dent *e = d->ents; e; e = e->next) if (!strcmp(e->name, n)) return e; return NULL; }
static void dadd(Ino *d, const char *n, Ino *i) { Dent *e = malloc(sizeof *e); e->name = strdup(n); e->ino = i; e->next = d->ents; d->ents = e; i->nlink++; d->mtime = rtime(); }
static Ino *ddel(Ino *d, const char *n) { for (Dent **p = &d->ents; *p; p = &(*p)->next) if (!strcmp((*p)->name, n)) { Dent *e = *p; Ino *i = e->ino; *p = e->next; free(e->name); free(e); i->nlink--; d->mtime = rtime(); return i; } return NULL; }
static Undo *jadd(int kind, Ino *dir) { static Undo dummy; if (dir && dir->dev) return &dummy; if (njrn == capjrn) jrn = realloc(jrn, sizeof *jrn * (capjrn = capjrn ? capjrn * 2 : 256)); Undo *u = &jrn[njrn++]; memset(u, 0, sizeof *u); u->t = now_us; u->kind = kind; u->dir = dir; return u; }
static void jcommit(void) { for (int i = 0; i < njrn; i++) { free(jrn[i].name); free(jrn[i].name2); } njrn = 0; }
static void ino_sync(Ino *i)
{
    if (i->dev || !i->w) { if (!i->dev && i->len == 0 && i->slen) ; }
    while (i->w) { WOp *w = i->w; i->w = w->next; free(w->data); free(w); }
    i->wtail = NULL;
    i->sdata = realloc(i->sdata, i->len + 1); if (i->len) memcpy(i->sdata, i->data, i->len); i->slen = i->len;
}
static void raw_apply(char **d, long *len, long *cap, WOp *w, long n)
{
    if (w->trunc) { long nl = w->len; if (nl > *cap) { *cap = nl + 256; *d = realloc(*d, *cap); } if (nl > *len) memset(*d + *len, 0, nl - *len); *len = nl; return; }
    long e = w->off + n; if (n <= 0) return;
    if (e > *cap) { *cap = e * 2 + 256; *d = realloc(*d, *cap); }
    if (w->off > *len) memset(*d + *len, 0, w->off - *len);
    memcpy(*d + w->off, w->data, n); if (e > *len) *len = e;
}
static void ino_op(Ino *i, int trunc, long off, const char *b, long n)
{
    WOp *w = calloc(1, sizeof *w); w->t = now_us; w->trunc = trunc; w->off = off; w->len = n;
    if (!trunc) { w->data = malloc(n + 1); memcpy(w->data, b, n); }
    raw_apply(&i->data, &i->len, &i->cap, w, n);
    i->mtime = i->ctime = rtime();
    if (i->dev) { free(w->data); free(w); return; }
    if (i->wtail) i->wtail->next = w; else i->w = w;
    i->wtail = w;
}
/* what the disk holds after a power cut */
static void fs_crash(void)
{
    int keep = 0; u64 h = mix(seed ^ mix(crash_key + 77));
    while (keep < njrn && jrn[keep].t <= now_us - commit_us) keep++;
    int lo = keep; keep = lo + (njrn > lo ? (int)(h % (njrn - lo + 1)) : 0);
    int m = (h >> 40) % 4; if (m == 0) keep = njrn; else if (m == 1) keep = lo;
    int total = njrn;
    for (int k = njrn - 1; k >= keep; k--) {
        Undo *u = &jrn[k];
        switch (u->kind) {
        case U_ADD: ddel(u->dir, u->name); break;
        case U_DEL: dadd(u->dir, u->name, u->ino); break;
        case U_REN: ddel(u->dir2, u->name2); dadd(u->dir, u->name, u->ino); if (u->old) dadd(u->dir2, u->name2, u->old); break;
        case U_ATTR: u->ino->mode = u->a; u->ino->uid = u->b; u->ino->gid = u->c; break;
        }
    }
    jcommit();
    int lost = 0, torn = 0;
    for (int k = 0; k < nino; k++) {
        Ino *i = allino[k]; i->lock_ex = NULL; i->nsh = 0; i->listener = NULL;
        if (i->dev || i->type != S_IFREG) continue;
        int n = 0; for (WOp *w = i->w; w; w = w->next) n++;
        if (!n) continue;
        u64 g = mix(seed ^ mix(crash_key * 131 + i->num)); int must = 0, j = 0;
        for (WOp *w = i->w; w; w = w->next) if (w->t <= now_us - wb_us) must++; else break;
        int kk = must + (int)(g % (n - must + 1));
        char *d = NULL; long len = 0, cap = 0;
        cap = i->slen + 1; d = malloc(cap); if (i->slen) memcpy(d, i->sdata, i->slen); len = i->slen;
        for (WOp *w = i->w; w; w = w->next, j++) {
            if (j < kk) raw_apply(&d, &len, &cap, w, w->len);
            else { lost++; if (j == kk && !w->trunc && ((g >> 32) & 1)) { raw_apply(&d, &len, &cap, w, (g >> 33) % (w->len + 1)); torn++; } break; }
        }
        free(i->data); i->data = d; i->len = len; i->cap = cap;
        ino_sync(i);
    }
    /* volatile file systems come back empty */
    for (int k = 0; k < nino; k++) { Ino *i = allino[k]; if (i->dev == 1 && i->type == S_IFDIR) while (i->ents && i->ents->ino->type != S_IFDIR) ddel(i, i->ents->name);
        if (i->dev == 1 && i->type == S_IFDIR) for (;;) { Dent *e; for (e = i->ents; e; e = e->next) if (e->ino->type != S_IFDIR) break; if (!e) break; ddel(i, e->name); } }
    ev_begin("fscrash"); ev_i("meta_lost", total - keep); ev_i("files_cut", lost); ev_i("torn", torn); ev_end();
}
static void age_journal(void)
{
    /* periodic commit and write-back, as a real file system does */
    int k = 0; while (k < njrn && jrn[k].t <= now_us - commit_us) k++;
    if (k) { for (int i = 0; i < k; i++) { free(jrn[i].name); free(jrn[i].name2); } memmove(jrn, jrn + k, (njrn - k) * sizeof *jrn); njrn -= k; }
}
static int perm(Ino *i, int want)     /* effective ids */
{
    if (!cur || cur->euid == 0) return (want & 1) && i->type == S_IFREG && !(i->mode & 0111) ? 0 : 1;
    int m = i->mode;
    if (i->uid == cur->euid) m >>= 6;
    else { int in = i->gid == cur->egid; for (int k = 0; k < cur->ng; k++) if ((int)cur->groups[k] == i->gid) in = 1; if (in) m >>= 3; }
    return (m & want) == want;
}
/* resolve: returns 0 and *dir,*last,*ino (ino may be NULL) */
static int walk(const char *path, Ino **dir, char *last, Ino **ino, int follow, int depth)
{
    if (!path || !*path) return -ENOENT;
    if (depth > 8) return -ELOOP;
    if (strlen(path) >= PATH_MAX) return -ENAMETOOLONG;
    Ino *d = *path == '/' ? rootino : (cur ? cur->cwd : rootino); char comp[256]; const char *p = path;
    Ino *stack[64]; int sp = 0; stack[sp++] = rootino; if (d != rootino) stack[sp++] = d;
    *ino = d; *dir = d; last[0] = 0;
    if (*path == '/') { strcpy(last, "."); *ino = rootino; *dir = rootino; }
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        size_t l = strcspn(p, "/"); if (l > 255) return -ENAMETOOLONG;
        memcpy(comp, p, l); comp[l] = 0; p += l; const char *rest = p; while (*rest == '/') rest++;
        if (!*ino) return -ENOENT;
        d = *ino;
        if (d->type != S_IFDIR) return -ENOTDIR;
        if (!perm(d, 1)) return -EACCES;
        *dir = d; strcpy(last, comp);
        if (!strcmp(comp, ".")) { *ino = d; continue; }
        if (!strcmp(comp, "..")) { if (sp > 1) sp--; *ino = stack[sp - 1]; *dir = *ino; continue; }
        Dent *e = dfind(d, comp); *ino = e ? e->ino : NULL;
        if (*ino && (*ino)->type == S_IFLNK && (*rest || follow)) {
            char b[1024]; snprintf(b, sizeof b, "%s%s%s", (*ino)->target, *rest ? "/" : "", rest);
            Ino *sc = NULL; if (cur && b[0] != '/') { sc = cur->cwd; cur->cwd = d; }
            int r = walk(b, dir, last, ino, follow, depth + 1); if (sc) cur->cwd = sc; return r;
        }
        if (!*ino && *rest) return -ENOENT;
        if (*ino && (*ino)->type == S_IFDIR && sp < 64) stack[sp++] = *ino;
    }
    return 0;
}
static Ino *lookup(const char *path, int *err) { Ino *d, *i; char l[256]; int r = walk(path, &d, l, &i, 1, 0); if (r < 0) { *err = r; return NULL; } if (!i) *err = -ENOENT; return i; }
static Ino *kmk(const char *path, int type, int mode, int uid, int gid, const char *data, long n, int dev)
{   /* kernel-side creation (boot image, admin edits) */
    Proc *sv = cur; cur = NULL;
    Ino *d, *i; char l[256], pp[512]; snprintf(pp, sizeof pp, "%s", path);
    for (char *q = pp + 1; *q; q++) if (*q == '/') { *q = 0; if (walk(pp, &d, l, &i, 1, 0) < 0 || !i) { i = mkino(S_IFDIR, 0755, 0, 0, dev < 0 ? 0 : dev); dadd(d, l, i); } *q = '/'; }
    int r = walk(path, &d, l, &i, 1, 0);
    if (r < 0) { cur = sv; return NULL; }
    if (!i) { i = mkino(type, mode, uid, gid, dev >= 0 ? dev : d->dev); dadd(d, l, i); Undo *u = jadd(U_ADD, d); u->ino = i; u->name = strdup(l); }
    i->mode = mode; i->uid = uid; i->gid = gid; if (dev >= 0) i->dev = dev;
    if (type == S_IFREG) { ino_op(i, 1, 0, NULL, 0); if (n) ino_op(i, 0, 0, data, n); ino_sync(i); }
    cur = sv; return i;
}

/* ================================================================ files */
static File *mkfile(int type) { File *f = calloc(1, sizeof *f); f->type = type; f->ref = 1; return f; }
static void sock_unref(Sock *s);
static void file_put(File *f)
{
    if (--f->ref) return;
    if (f->ino && f->lockt) { if (f->lockt == 2) f->ino->lock_ex = NULL; else f->ino->nsh--; }
    if (f->type == F_PR) f->pipe->rd--;
    if (f->type == F_PW) f->pipe->wr--;
    if (f->pipe && f->pipe->rd == 0 && f->pipe->wr == 0) { free(f->pipe->b); free(f->pipe); }
    if (f->sock) {
        Sock *s = f->sock;
        if (s->state == 2) { for (int i = 0; i < s->nq; i++) { if (s->q[i]->peer) { s->q[i]->peer->peergone = 1; s->q[i]->peer->peer = NULL; } } if (s->node) s->node->listener = NULL; }
        if (s->peer) { s->peer->peergone = 1; s->peer->peer = NULL; s->peer = NULL; }
        s->state = 4;
    }
    for (int i = 0; i < f->nsnap; i++) free(f->snap[i]);
    free(f->snap);
    free(f);
}
static int newfd(Proc *p, File *f, int min) { for (int i = min; i < FDMAX && i < fdlimit; i++) if (!p->fd[i]) { p->fd[i] = f; p->cx[i] = 0; return i; } file_put(f); return -EMFILE; }
static File *getf(int fd) { return fd >= 0 && fd < FDMAX ? cur->fd[fd] : NULL; }
static int sock_space(Sock *s) { return s->peer ? s->peer->cap - s->peer->len : 0; }
static int readable(File *f)
{
    switch (f->type) {
    case F_PR: return f->pipe->len > 0 || f->pipe->wr == 0;
    case F_SOCK: if (f->sock->state == 2) return f->sock->nq > 0; if (f->sock->state == 3) return f->sock->len > 0 || f->sock->peergone || f->sock->rdshut || (f->sock->peer && f->sock->peer->wrshut); return 1;
    case F_TFD: return (f->tfd_set && clkset_gen != f->tfd_gen) || (f->tfd_at && rtime() >= f->tfd_at);
    case F_TTY: return 0;
    default: return 1;
    }
}
static int writable(File *f)
{
    switch (f->type) {
    case F_PW: return f->pipe->rd == 0 || f->pipe->cap - f->pipe->len >= (f->pipe->cap < 4096 ? 1 : 4096) || f->pipe->len == 0;
    case F_SOCK: if (f->sock->state == 3) return f->sock->peergone || f->sock->wrshut || sock_space(f->sock) > 0; return 1;
    default: return 1;
    }
}

/* ================================================================ context switching */
__asm__(".text\n.globl k_swtch\nk_swtch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
extern void k_swtch(void **save, void *load);
static void to_sched(void) { void *d; k_swtch(cur ? &cur->rsp : &d, sched_rsp); }
static void img_save(Proc *p)
{
    Prog *g = p->prog;
    for (int i = 0; i < g->nseg; i++) { if (!p->img[i]) p->img[i] = malloc(g->seg[i].n); memcpy(p->img[i], g->seg[i].a, g->seg[i].n); }
    p->nheap = *g->brk - g->heap; if (p->nheap > p->capheap) { free(p->iheap); p->iheap = malloc(p->capheap = p->nheap * 2); } memcpy(p->iheap, g->heap, p->nheap);
    p->nstk_ = g->stk_top - (char *)p->rsp; if (p->nstk_ > p->capstk) { free(p->istk); p->istk = malloc(p->capstk = p->nstk_ * 2); } memcpy(p->istk, p->rsp, p->nstk_);
}
static void img_load(Proc *p)
{
    Prog *g = p->prog;
    for (int i = 0; i < g->nseg; i++) memcpy(g->seg[i].a, p->img[i], g->seg[i].n);
    memcpy(g->heap, p->iheap, p->nheap); memcpy(p->rsp, p->istk, p->nstk_);
}
static void img_free(Proc *p) { for (int i = 0; i < 8; i++) { free(p->img[i]); p->img[i] = NULL; } free(p->iheap); p->iheap = NULL; p->capheap = 0; free(p->istk); p->istk = NULL; p->capstk = 0; }
static void real_entry(void) { cur->prog->start(cur->argc, cur->argv, cur->envp); die("program returned"); }
static void nat_entry(void) { cur->nat(cur); k_exit(0); }
static void fresh_stack(Proc *p, char *top, void (*entry)(void))
{
    u64 *s = (u64 *)((uintptr_t)top & ~15UL); *--s = 0; *--s = (u64)entry; for (int i = 0; i < 6; i++) *--s = 0;
    p->rsp = s;
}
static u64 *stk_seen;
static void resume(Proc *p)
{
    if (p->prog) {
        Prog *g = p->prog;
        if (g->owner != p) {
            if (g->owner) img_save(g->owner);
            g->owner = p;
            if (p->fresh) {
                for (int i = 0; i < g->nseg; i++) memcpy(g->seg[i].a, g->seg[i].pristine, g->seg[i].n);
                *g->arena = *g->brk = g->heap; *g->arena_end = g->heap_end;
            }
            else img_load(p);
        }
        else if (p->fresh) {
            for (int i = 0; i < g->nseg; i++) memcpy(g->seg[i].a, g->seg[i].pristine, g->seg[i].n);
            *g->arena = *g->brk = g->heap; *g->arena_end = g->heap_end;
        }
        if (p->fresh) { memset(g->stk_top - 65536, 0, 65536); fresh_stack(p, g->stk_top - 64, real_entry); p->fresh = 0; }
    }
    else if (p->fresh) { if (!p->nstk) p->nstk = mmap(NULL, 262144, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); fresh_stack(p, p->nstk + 262144 - 64, nat_entry); p->fresh = 0; }
    cur = p; stat_switch++;
    k_swtch(&sched_rsp, p->rsp);
    cur = NULL;
}

/* ================================================================ processes and signals */
static Proc *findpid(int pid) { for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].pid == pid) return &procs[i]; return NULL; }
static Proc *newproc(void)
{
    int i; for (i = 0; i < nprocs; i++) if (procs[i].state == ST_FREE) break;
    if (i == nprocs) { if (nprocs == NPROC) return NULL; nprocs++; }
    Proc *p = &procs[i]; char *st = p->nstk; memset(p, 0, sizeof *p); p->nstk = st; p->idx = i; p->pid = next_pid++; p->wake = -1; p->state = ST_RUN; p->alarm_at = -1;
    p->started = now_us; return p;
}
static void freeargs(Proc *p) { for (int i = 0; i < NARG && p->argv[i]; i++) { free(p->argv[i]); p->argv[i] = NULL; } for (int i = 0; i < NARG && p->envp[i]; i++) { free(p->envp[i]); p->envp[i] = NULL; } }
static void reap(Proc *p) { img_free(p); freeargs(p); p->state = ST_FREE; }
static void sig_post(Proc *p, int sig);
static void terminate(Proc *p, int status)
{
    if (p->state == ST_ZOMB || p->state == ST_FREE) return;
    for (int i = 0; i < FDMAX; i++) if (p->fd[i]) { File *f = p->fd[i]; p->fd[i] = NULL; file_put(f); }
    p->state = ST_ZOMB; p->status = status;
    if (p->prog && p->prog->owner == p) p->prog->owner = NULL;
    ev_begin("exit"); ev_proc(p); ev_i("st", status); if (p->tag) ev_i("tag", p->tag);
    if (p->job) ev_i("job", p->job);
    if (p->cout) { ev_sn("out", p->cout->b ? p->cout->b : "", p->cout->len); ev_sn("err", p->cerr->b ? p->cerr->b : "", p->cerr->len); }
    ev_i("up", now_us - p->started);
    ev_end();
    for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].ppid == p->pid && &procs[i] != p) { procs[i].ppid = 1; if (procs[i].state == ST_ZOMB) reap(&procs[i]); }
    Proc *q = findpid(p->ppid);
    if (!q || q->state == ST_ZOMB || q->sa[SIGCHLD].sa_handler == SIG_IGN || (q->sa[SIGCHLD].sa_flags & SA_NOCLDWAIT)) reap(p);
    else img_free(p);
    if (q && q->state != ST_ZOMB) sig_post(q, SIGCHLD);
    if (p == cur) { sched_jmp[0] = sched_jmp[0]; void *d; k_swtch(&d, sched_rsp); }
}
static int sig_default_ignored(int s) { return s == SIGCHLD || s == SIGCONT || s == SIGURG || s == SIGWINCH; }
static void sig_post(Proc *p, int sig)
{
    if (p->state == ST_ZOMB || p->state == ST_FREE || sig <= 0 || sig > 64) return;
    if (sig == SIGKILL) { terminate(p, SIGKILL); return; }
    if (sig == SIGSTOP) { p->stopped = 1; return; }
    if (sig == SIGCONT) p->stopped = 0;
    void (*h)(int) = p->sa[sig].sa_handler;
    if (h == SIG_IGN || (h == SIG_DFL && sig_default_ignored(sig))) return;
    if (h == SIG_DFL && sig == SIGTSTP) { p->stopped = 1; return; }
    if (h == SIG_DFL && p != cur && !(p->blk >> sig & 1)) { terminate(p, sig); return; }
    p->pend |= 1ULL << sig;
}
static u64 deliverable(Proc *p) { return p->pend & ~p->blk; }
static void deliver(void)
{
    while (cur->prog && deliverable(cur)) {
        u64 m = deliverable(cur); int s = __builtin_ctzll(m); cur->pend &= ~(1ULL << s);
        struct sigaction a = cur->sa[s];
        if (a.sa_handler == SIG_IGN) continue;
        if (a.sa_handler == SIG_DFL) { if (sig_default_ignored(s)) continue; terminate(cur, s); }
        u64 ob = cur->blk; sigset_t ms = a.sa_mask;
        for (int k = 1; k < 64; k++) if (sigismember(&ms, k) == 1) cur->blk |= 1ULL << k;
        if (!(a.sa_flags & SA_NODEFER)) cur->blk |= 1ULL << s;
        if (a.sa_flags & SA_RESETHAND) cur->sa[s].sa_handler = SIG_DFL;
        hx(s);
        a.sa_handler(s);
        cur->blk = ob;
    }
    if (!cur->prog && deliverable(cur)) { int s = __builtin_ctzll(deliverable(cur)); cur->pend &= ~(1ULL << s); terminate(cur, s); }
}
static int restartable(void)   /* pending signals all restart? then run them and say so */
{
    u64 m = deliverable(cur); int all = 1;
    if (!m) return 0;
    for (int s = 1; s < 64; s++) if (m >> s & 1) if (!(cur->sa[s].sa_flags & SA_RESTART)) all = 0;
    deliver();
    return all;
}
static int waitany(Proc *p, int pid, int *alive)
{
    *alive = 0; int best = -1;
    for (int i = 0; i < nprocs; i++) { Proc *c = &procs[i]; if (c->state == ST_FREE || c->ppid != p->pid || c == p) continue;
        if (pid > 0 && c->pid != pid) continue; if (pid < -1 && c->pgid != -pid) continue; if (pid == 0 && c->pgid != p->pgid) continue;
        if (c->state == ST_ZOMB) { if (best < 0 || procs[best].pid > c->pid) best = i; } else (*alive)++; }
    return best;
}
static int lock_ok(File *f, int t) { Ino *i = f->ino; if (t == 2) return (!i->lock_ex || i->lock_ex == f) && (i->nsh == 0 || (i->nsh == 1 && f->lockt == 1)); return !i->lock_ex || i->lock_ex == f; }
static int cond(Proc *p)
{
    switch (p->wk) {
    case W_READ: case W_ACCEPT: return readable(p->wf);
    case W_WRITE: return writable(p->wf);
    case W_SELECT: for (int i = 0; i < p->wn; i++) { if (FD_ISSET(i, &p->wr) && (!p->fd[i] || readable(p->fd[i]))) return 1; if (FD_ISSET(i, &p->ww) && (!p->fd[i] || writable(p->fd[i]))) return 1; } return 0;
    case W_POLL: for (int i = 0; i < p->wn; i++) { int fd = p->wp[i].fd; if (fd < 0) continue; if (fd >= FDMAX || !p->fd[fd]) return 1; if ((p->wp[i].events & POLLIN) && readable(p->fd[fd])) return 1; if ((p->wp[i].events & POLLOUT) && writable(p->fd[fd])) return 1; } return 0;
    case W_CHILD: { int al, b = waitany(p, p->wpid, &al); return b >= 0 || al == 0; }
    case W_LOCK: return lock_ok(p->wf, p->wlk);
    case W_CONNECT: return p->wf->sock->state != 1;
    }
    return 0;
}
/* block the current process; 0 condition holds, -EINTR, -ETIMEDOUT */
static int block(int wk, i64 deadline)
{
    cur->wk = wk; cur->wake = deadline; cur->state = ST_WAIT; cur->isready = 0;
    to_sched();
    cur->wk = W_NONE; cur->wake = -1;
    return cur->wres;
}
static int is_ready(Proc *p)
{
    if (p->stopped || p->state == ST_ZOMB || p->state == ST_FREE) return 0;
    if (p->stall > now_us) return 0;
    if (p->alarm_at >= 0 && p->alarm_at <= now_us) { p->alarm_at = -1; sig_post(p, SIGALRM); if (p->state == ST_ZOMB || p->state == ST_FREE) return 0; }
    if (p->state == ST_RUN) return 1;
    if (cond(p)) { p->wres = 0; return 1; }
    if (deliverable(p)) { p->wres = -EINTR; return 1; }
    if (p->wake >= 0 && p->wake <= now_us) { p->wres = -ETIMEDOUT; return 1; }
    return 0;
}
static void run_ops(void);
static void do_crash(void);
static Dec *dec_find(u64 key) { for (int i = 0; i < ndecs; i++) if (decs[i].key == key) return &decs[i]; return NULL; }
static void dec_out(const char *name, long n, int kind, i64 arg) { fprintf(tr, "{\"e\":\"D\",\"n\":%lu,\"d\":\"%s %ld %c %ld\"}\n", (unsigned long)evseq++, name, n, kind, (long)arg); hx(kind); hx(arg); }
static char lastname[64]; static long lastnsys;
static void scheduler(void)
{
    while (!done) {
        if (want_crash) { want_crash = 0; do_crash(); }
        run_ops(); if (done) break;
        if (want_crash) continue;
        Proc *r[NPROC]; int n = 0;
        for (int i = 0; i < nprocs; i++) { Proc *p = &procs[i]; if (p->state == ST_FREE || p->state == ST_ZOMB) continue;
            if (is_ready(p)) { if (!p->isready) { p->isready = 1; p->ready = ++ready_seq; } int j = n++; while (j > 0 && r[j - 1]->ready > p->ready) { r[j] = r[j - 1]; j--; } r[j] = p; } else p->isready = 0; }
        if (!n) {
            i64 t = INT64_MAX;
            if (opnext < nops) t = ops[opnext].t;
            for (int i = 0; i < nprocs; i++) { Proc *p = &procs[i]; if (p->state == ST_FREE || p->state == ST_ZOMB || p->stopped) continue;
                i64 w = INT64_MAX; if (p->stall > now_us) w = p->stall; else { if (p->state == ST_WAIT && p->wake >= 0) w = p->wake; if (p->alarm_at >= 0 && p->alarm_at < w) w = p->alarm_at; }
                if (w < t) t = w; }
            if (t > t_end || t == INT64_MAX) { if (t_end > now_us) now_us = t_end; done = 1; break; }
            if (t > now_us) now_us = t;
            continue;
        }
        if (now_us > t_end) { done = 1; break; }
        int k = 0;
        if (n > 1) {
            if (sched_explicit) { Dec *d = ndecs ? dec_find(deckey(lastname, lastnsys, 'B' & 7)) : NULL; if (d && d->kind == 'B') { k = d->arg % n; dec_out(lastname, lastnsys, 'B', k); } }
            else if (pick_ppm) { u64 h = mix(seed ^ deckey(lastname, lastnsys, 'B' & 7)); if (h % 1000000 < pick_ppm) { k = (h >> 32) % n; if (k) dec_out(lastname, lastnsys, 'B', k); } }
        }
        Proc *p = r[k];
        if (p->state == ST_WAIT) p->state = ST_RUN;
        p->isready = 0;
        lastnsys = -1;
        resume(p);
        if (lastnsys < 0) { strcpy(lastname, p->name); lastnsys = p->nsys; }
        if (p->wantfork) {
            p->wantfork = 0; Proc *c = newproc();
            int i = c->idx, pid = c->pid; char *st = c->nstk;
            *c = *p; c->idx = i; c->pid = pid; c->nstk = st; c->ppid = p->pid; c->pend = 0; c->nchild = 0; c->nsys = 0; c->alarm_at = -1; c->started = now_us; c->tag = 0; c->cout = c->cerr = NULL; c->killafter = c->crashafter = 0;
            snprintf(c->name, sizeof c->name, "%.50s.%d", p->name, ++p->nchild);
            for (int j = 0; j < FDMAX; j++) if (c->fd[j]) c->fd[j]->ref++;
            memset(c->img, 0, sizeof c->img); c->iheap = c->istk = NULL; c->capheap = c->capstk = 0;
            for (int j = 0; j < NARG && c->argv[j]; j++) c->argv[j] = strdup(c->argv[j]);
            for (int j = 0; j < NARG && c->envp[j]; j++) c->envp[j] = strdup(c->envp[j]);
            img_save(c); c->depth = p->depth + 1;
            c->forkret = 0; p->forkret = c->pid; c->state = ST_RUN; c->isready = 0; p->isready = 1; p->ready = ++ready_seq;
            ev_begin("fork"); ev_proc(c); ev_s("by", p->name); ev_end();
        }
    }
}

/* ================================================================ system call entry: time, scheduling decisions, faults */
enum { S_open, S_close, S_read, S_write, S_lseek, S_fstat, S_stat, S_access, S_unlink, S_rmdir, S_rename, S_link, S_symlink, S_readlink, S_mkdir, S_chmod, S_fchmod, S_chown, S_fchown, S_fcntl, S_ftruncate, S_fsync, S_flock, S_dup, S_dup2, S_pipe, S_fork, S_execve, S_exit, S_waitpid, S_kill, S_setuid, S_setgid, S_setgroups, S_setpriority, S_chdir, S_getdents, S_sigaction, S_sigsuspend, S_nanosleep, S_select, S_poll, S_timerfd, S_socket, S_bind, S_listen, S_accept, S_connect, S_send, S_recv, S_shutdown, S_sockopt, S_time, S_loadavg, S_malloc, S_pam, S_misc, S_fdatasync, S_MAX };
static const char *sysn[] = { "open", "close", "read", "write", "lseek", "fstat", "stat", "access", "unlink", "rmdir", "rename", "link", "symlink", "readlink", "mkdir", "chmod", "fchmod", "chown", "fchown", "fcntl", "ftruncate", "fsync", "flock", "dup", "dup2", "pipe", "fork", "execve", "exit", "waitpid", "kill", "setuid", "setgid", "setgroups", "setpriority", "chdir", "getdents", "sigaction", "sigsuspend", "nanosleep", "select", "poll", "timerfd", "socket", "bind", "listen", "accept", "connect", "send", "recv", "shutdown", "sockopt", "time", "loadavg", "malloc", "pam", "misc", "fdatasync" };
static u64 syscount[S_MAX];
static void exec_op(Op *o);
static void check_signal_kill(void) { if (cur->state == ST_ZOMB) to_sched(); }
static int fault_hit(int sc)
{
    int res = 0;
    for (int i = 0; i < nfaults; i++) {
        Fault *f = &faults[i];
        if (now_us < f->t0 || now_us >= f->t1) continue;
        if (strcmp(f->sys, sysn[sc]) && strcmp(f->sys, "*")) continue;
        if (f->tok && cur->tag != f->tok) continue;
        if (fnmatch(f->who, cur->name, 0) && !(cur->prog && f->who[0] == '@' && !strcmp(f->who + 1, cur->prog->name))) continue;
        f->seen++;
        if (f->seen < f->from || f->seen >= f->from + f->cnt) continue;
        char k = f->kind[0];
        f->fired++; nfault_fired[(int)(k & 31)]++;
        ev_begin("fault"); ev_proc(cur); ev_s("sys", sysn[sc]); ev_s("kind", f->kind); ev_i("arg", f->arg); ev_i("fi", i); ev_end();
        switch (k) {
        case 'E': res = -f->arg; break;
        case 'S': cur->shortn = f->arg; break;
        case 'K': terminate(cur, SIGKILL); break;
        case 'k': cur->killafter = 1; break;
        case 'C': want_crash = 1; crash_key = f->arg; to_sched(); break;
        case 'c': cur->crashafter = 1; crash_key = f->arg; break;
        case 'G': sig_post(cur, f->arg); break;
        case 'Z': cur->stall = now_us + f->arg; if (sc != S_malloc) to_sched(); break;
        case 'O': for (int j = 0; j < nops; j++) if (ops[j].idx == f->arg && !ops[j].fired) { ops[j].fired = 1; exec_op(&ops[j]); if (want_crash) to_sched(); break; } break;
        }
    }
    return res;
}
static int sc_enter(int sc)
{
    cur->nsys++; steps++; stat_sys++; syscount[sc]++; now_us += sys_cost; cur->shortn = 0;
    if (steps > max_steps) { done = 1; strcpy(endwhy, "maxsteps"); to_sched(); }
    hx(sc);
    if (opnext < nops && ops[opnext].t <= now_us) { run_ops(); if (done || want_crash) to_sched(); if (cur->state == ST_ZOMB) to_sched(); }
    if (cur->stopped) to_sched();
    if (sched_explicit) {
        if (ndecs) {
            Dec *d = dec_find(deckey(cur->name, cur->nsys, 'Z' & 7)); if (d && d->kind == 'Z') { dec_out(cur->name, cur->nsys, 'Z', d->arg); cur->stall = now_us + d->arg; stat_stall++; to_sched(); }
            d = dec_find(deckey(cur->name, cur->nsys, 'P' & 7)); if (d && d->kind == 'P') { dec_out(cur->name, cur->nsys, 'P', d->arg); cur->isready = 0; stat_preempt++; to_sched(); }
        }
    }
    else {
        if (stall_ppm) { u64 h = mix(seed ^ deckey(cur->name, cur->nsys, 'Z' & 7)); if (h % 1000000 < stall_ppm) { int lg = 64 - __builtin_clzll(stall_max | 1); i64 us = (h >> 20) % (1ULL << (1 + (h >> 50) % lg)); if (us > stall_max) us = stall_max; dec_out(cur->name, cur->nsys, 'Z', us); cur->stall = now_us + us; stat_stall++; to_sched(); } }
        if (preempt_ppm) { u64 h = mix(seed ^ deckey(cur->name, cur->nsys, 'P' & 7)); if (h % 1000000 < preempt_ppm) { int o = 0; for (int i = 0; i < nprocs; i++) if (&procs[i] != cur && is_ready(&procs[i])) o++; if (o) { dec_out(cur->name, cur->nsys, 'P', 0); cur->isready = 0; stat_preempt++; to_sched(); } } }
    }
    if (nfaults) { int r = fault_hit(sc); if (r) return r; }
    return 0;
}
static long sc_leave(long r)
{
    if (cur->killafter) { cur->killafter = 0; terminate(cur, SIGKILL); }
    if (cur->crashafter) { cur->crashafter = 0; want_crash = 1; to_sched(); }
    if (deliverable(cur)) deliver();
    hx(r);
    return r;
}
#define SYSC(ret, nm, sc, params, args) static ret do_##nm params; ret k_##nm params { int i_ = sc_enter(sc); if (i_ < 0) return sc_leave(i_); return sc_leave(do_##nm args); } static ret do_##nm params

/* ---------------------------------------------------------------- files */
static int can_alloc(long n) { if (diskfree < 0) return n; if (diskfree >= n) { diskfree -= n; return n; } long m = diskfree; diskfree = 0; return m; }
SYSC(int, open, S_open, (const char *path, int flags, int mode), (path, flags, mode))
{
    Ino *d, *i; char l[256]; int r = walk(path, &d, l, &i, !(flags & O_NOFOLLOW) && !((flags & O_CREAT) && (flags & O_EXCL)), 0); int acc = flags & O_ACCMODE;
    if (r < 0) return r;
    int nfd; for (nfd = 0; nfd < FDMAX && cur->fd[nfd]; nfd++); if (nfd >= fdlimit || nfd >= FDMAX) return -EMFILE;
    if (i && i->type == S_IFLNK) return (flags & O_CREAT) && (flags & O_EXCL) ? -EEXIST : -ELOOP;
    if (!i) {
        if (!(flags & O_CREAT)) return -ENOENT;
        if (!perm(d, 3)) return -EACCES;
        if (!d->dev && diskfree == 0 && diskmode == 2) return -ENOSPC;
        i = mkino(S_IFREG, mode & ~cur->umask & 07777, cur->euid, cur->egid, d->dev); dadd(d, l, i);
        Undo *u = jadd(U_ADD, d); u->ino = i; u->name = strdup(l);
    }
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
        if (i->type == S_IFDIR && acc != O_RDONLY) return -EISDIR;
        if ((flags & O_DIRECTORY) && i->type != S_IFDIR) return -ENOTDIR;
        if (i->type == S_IFSOCK) return -ENXIO;
        if (acc != O_WRONLY && !perm(i, 4)) return -EACCES;
        if (acc != O_RDONLY && !perm(i, 2)) return -EACCES;
        if ((flags & O_TRUNC) && acc != O_RDONLY && i->type == S_IFREG && i->len) ino_op(i, 1, 0, NULL, 0);
    }
    if (i->type == S_IFCHR && !strcmp(l, "tty")) return -ENXIO;
    File *f = mkfile(i->type == S_IFDIR ? F_DIR : i->type == S_IFCHR ? F_NULL : F_REG); f->ino = i; f->flags = flags & ~(O_CREAT | O_EXCL | O_TRUNC); snprintf(f->path, sizeof f->path, "%s%s%s", path[0] == '/' ? "" : cur->cwdp, path[0] == '/' ? "" : "/", path);
    int fd = newfd(cur, f, 0); if (fd >= 0 && (flags & O_CLOEXEC)) cur->cx[fd] = 1; return fd;
}
/* as on Linux, a failing close releases the descriptor all the same */
static int do_close(int fd);
int k_close(int fd) { int i_ = sc_enter(S_close); if (i_ < 0) { do_close(fd); return sc_leave(i_); } return sc_leave(do_close(fd)); }
static int do_close(int fd) { File *f = getf(fd); if (!f) return -EBADF; cur->fd[fd] = NULL; file_put(f); return 0; }
SYSC(long, read, S_read, (int fd, void *buf, size_t n), (fd, buf, n))
{
    File *f = getf(fd); if (!f) return -EBADF; if (cur->shortn && (long)n > cur->shortn) n = cur->shortn;
    if (f->type == F_REG) { if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF; long k = f->ino->len - f->pos; if (k < 0) k = 0; if (k > (long)n) k = n; if (k) memcpy(buf, f->ino->data + f->pos, k); f->pos += k; return k; }
    if (f->type == F_DIR) return -EISDIR;
    if (f->type == F_NULL || f->type == F_CAP) return 0;
    if (f->type == F_DATA) { long k = f->dlen - f->pos; if (k > (long)n) k = n; memcpy(buf, f->data + f->pos, k); f->pos += k; return k; }
    if (f->type == F_PW) return -EBADF;
    if (f->type == F_TTY) {                                 /* a terminal: one line per read; \001 = the user waits for two seconds before typing on */
        while (f->pos < f->dlen && f->data[f->pos] == 1) { f->pos++; int r = block(W_SLEEP, now_us + 2000000); f = getf(fd); if (!f) return -EBADF; if (r == -EINTR && !restartable()) return -EINTR; }
        if (f->pos < f->dlen && f->data[f->pos] == 5) return -EIO;        /* \005 = hung up */
        long k = 0; while (f->pos + k < f->dlen && k < (long)n && (!k || f->data[f->pos + k - 1] != '\n') && f->data[f->pos + k] != 1) k++;
        if (k > 0 && f->data[f->pos] == 4) { f->pos++; k = 0; }   /* ^D */
        memcpy(buf, f->data + f->pos, k); f->pos += k;
        char *x = malloc(k + 1); memcpy(x, buf, k); x[k] = 0; ev_begin("ttyread"); ev_proc(cur); ev_i("echo", !f->noecho); ev_s("x", x); ev_end(); free(x); return k;
    }
    for (;;) {
        f = getf(fd); if (!f) return -EBADF;
        if (f->type == F_TFD) { if (readable(f)) { if (f->tfd_set && clkset_gen != f->tfd_gen) { f->tfd_gen = clkset_gen; return -ECANCELED; } f->tfd_at = 0; *(u64 *)buf = 1; return 8; } }
        else if (f->type == F_PR && readable(f)) { Pipe *p = f->pipe; long k = p->len < (long)n ? p->len : (long)n; memcpy(buf, p->b, k); memmove(p->b, p->b + k, p->len - k); p->len -= k; return k; }
        else if (f->type == F_SOCK) { if (f->sock->state != 3) return -ENOTCONN; if (readable(f)) { Sock *s = f->sock; if (!s->len && s->peergone == 2) { s->peergone = 1; return -ECONNRESET; } long k = s->len < (long)n ? s->len : (long)n; memcpy(buf, s->b, k); memmove(s->b, s->b + k, s->len - k); s->len -= k; return k; } }
        if (f->flags & O_NONBLOCK) return -EAGAIN;
        cur->wf = f; int r = block(W_READ, -1); if (r == -EINTR && !restartable()) return -EINTR;
    }
}
static long pipe_write(int fd, const char *b, long n)
{
    long done_ = 0;
    while (done_ < n) {
        File *f = getf(fd); if (!f) return -EBADF;
        Pipe *p = f->pipe;
        if (!p->rd) { if (done_) return done_; sig_post(cur, SIGPIPE); return -EPIPE; }
        long sp = p->cap - p->len, k = n - done_ < sp ? n - done_ : sp;
        if (n <= 4096 && n <= p->cap && sp < n) k = 0;                       /* atomic small writes */
        if (k > 0) { memcpy(p->b + p->len, b + done_, k); p->len += k; done_ += k; continue; }
        if (f->flags & O_NONBLOCK) return done_ ? done_ : -EAGAIN;
        cur->wf = f; int r = block(W_WRITE, -1); if (r == -EINTR) { if (done_) return done_; if (!restartable()) return -EINTR; }
    }
    return done_;
}
static long sock_write(int fd, const char *b, long n, int fl)
{
    long done_ = 0;
    while (done_ < n) {
        File *f = getf(fd); if (!f) return -EBADF; Sock *s = f->sock;
        if (s->state != 3) return -ENOTCONN;
        if (s->peergone || s->wrshut || !s->peer) { if (done_) return done_; if (!(fl & MSG_NOSIGNAL)) sig_post(cur, SIGPIPE); return -EPIPE; }
        long sp = sock_space(s), k = n - done_ < sp ? n - done_ : sp;
        if (k > 0) { memcpy(s->peer->b + s->peer->len, b + done_, k); s->peer->len += k; done_ += k; continue; }
        if ((f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) return done_ ? done_ : -EAGAIN;
        cur->wf = f; int r = block(W_WRITE, -1); if (r == -EINTR) { if (done_) return done_; if (!restartable()) return -EINTR; }
    }
    return done_;
}
static void cap_add(Cap *c, const char *b, long n) { if (c->len + n > c->cap) { c->cap = (c->len + n) * 2 + 256; c->b = realloc(c->b, c->cap); } memcpy(c->b + c->len, b, n); c->len += n; }
SYSC(long, write, S_write, (int fd, const void *buf, size_t n), (fd, buf, n))
{
    File *f = getf(fd); if (!f) return -EBADF; if (cur->shortn && (long)n > cur->shortn) n = cur->shortn;
    if (f->type == F_REG) {
        if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
        if (f->flags & O_APPEND) f->pos = f->ino->len;
        long grow = f->pos + (long)n - f->ino->len;
        if (!f->ino->dev && grow > 0) { long g = can_alloc(grow); if (g < grow) { n -= grow - g; if ((long)n <= 0) return -ENOSPC; } }
        if (n == 0) return 0;
        ino_op(f->ino, 0, f->pos, buf, n); f->pos += n;
        f->ino->mode &= ~06000;
        if (f->flags & (O_SYNC | O_DSYNC)) { ino_sync(f->ino); if (!f->ino->dev) jcommit(); }
        return n;
    }
    if (f->type == F_NULL) return n;
    if (f->type == F_CAP) { cap_add(f->cap, buf, n); return n; }
    if (f->type == F_PW) return pipe_write(fd, buf, n);
    if (f->type == F_SOCK) return sock_write(fd, buf, n, 0);
    return -EBADF;
}
SYSC(long, lseek, S_lseek, (int fd, long off, int wh), (fd, off, wh))
{
    File *f = getf(fd); if (!f) return -EBADF; if (f->type == F_NULL) return 0; if (f->type != F_REG && f->type != F_DATA && f->type != F_DIR) return -ESPIPE;
    long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->pos : f->type == F_REG ? f->ino->len : f->dlen; if (b + off < 0) return -EINVAL; return f->pos = b + off;
}
static void fill(struct stat *st, Ino *i)
{
    memset(st, 0, sizeof *st); st->st_ino = i->num; st->st_dev = 1 + i->dev; st->st_mode = i->type | i->mode; st->st_nlink = i->type == S_IFDIR ? 2 : i->nlink; st->st_uid = i->uid; st->st_gid = i->gid; st->st_size = i->type == S_IFDIR ? 4096 : i->len; st->st_mtim.tv_sec = i->mtime / 1000000; st->st_mtim.tv_nsec = i->mtime % 1000000 * 1000; st->st_ctim.tv_sec = i->ctime / 1000000; st->st_atim = st->st_mtim; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
}
SYSC(int, fstat, S_fstat, (int fd, struct stat *st), (fd, st))
{
    File *f = getf(fd); if (!f) return -EBADF; if (f->ino) { fill(st, f->ino); return 0; }
    memset(st, 0, sizeof *st); st->st_mode = 0600 | (f->type == F_SOCK ? S_IFSOCK : f->type == F_PR || f->type == F_PW ? S_IFIFO : S_IFREG); st->st_nlink = 1; if (f->type == F_DATA) st->st_size = f->dlen; return 0;
}
static int do_stat(const char *path, struct stat *st, int follow);
int k_stat(const char *path, struct stat *st, int follow) { int i = sc_enter(S_stat); if (i < 0) return sc_leave(i); return sc_leave(do_stat(path, st, follow)); }
static int do_stat(const char *path, struct stat *st, int follow) { Ino *d, *i; char l[256]; int r = walk(path, &d, l, &i, follow, 0); if (r < 0) return r; if (!i) return -ENOENT; fill(st, i); return 0; }
SYSC(int, access, S_access, (const char *path, int mode, int eff), (path, mode, eff))
{
    int su = cur->euid, sg = cur->egid; if (!eff) { cur->euid = cur->ruid; cur->egid = cur->rgid; }
    int e = 0; Ino *i = lookup(path, &e); int r = i ? (mode == 0 || perm(i, mode) ? 0 : -EACCES) : e; cur->euid = su; cur->egid = sg; return r;
}
static int sticky(Ino *d, Ino *i) { return (d->mode & 01000) && cur->euid && cur->euid != d->uid && cur->euid != i->uid; }
SYSC(int, unlink, S_unlink, (const char *path), (path))
{
    Ino *d, *i; char l[256]; int r = walk(path, &d, l, &i, 0, 0); if (r < 0) return r; if (!i) return -ENOENT; if (i->type == S_IFDIR) return -EISDIR; if (!perm(d, 3)) return -EACCES; if (sticky(d, i)) return -EPERM;
    ddel(d, l); Undo *u = jadd(U_DEL, d); u->ino = i; u->name = strdup(l); return 0;
}
SYSC(int, rmdir, S_rmdir, (const char *path), (path)) { Ino *d, *i; char l[256]; int r = walk(path, &d, l, &i, 0, 0); if (r < 0) return r; if (!i) return -ENOENT; if (i->type != S_IFDIR) return -ENOTDIR; if (i->ents) return -ENOTEMPTY; if (!perm(d, 3)) return -EACCES; ddel(d, l); return 0; }
SYSC(int, rename, S_rename, (const char *a, const char *b), (a, b))
{
    Ino *d, *i, *d2, *i2; char l[256], l2[256]; int r = walk(a, &d, l, &i, 0, 0); if (r < 0) return r; if (!i) return -ENOENT; r = walk(b, &d2, l2, &i2, 0, 0); if (r < 0) return r;
    if (d->dev != d2->dev) return -EXDEV;
    if (!perm(d, 3) || !perm(d2, 3)) return -EACCES; if (sticky(d, i) || (i2 && sticky(d2, i2))) return -EPERM;
    if (i2 == i) return 0; if (i2 && i2->type == S_IFDIR && i->type != S_IFDIR) return -EISDIR;
    if (i2) ddel(d2, l2); ddel(d, l); dadd(d2, l2, i);
    Undo *u = jadd(U_REN, d); u->ino = i; u->name = strdup(l); u->dir2 = d2; u->name2 = strdup(l2); u->old = i2; return 0;
}
SYSC(int, link, S_link, (const char *a, const char *b), (a, b)) { Ino *d, *i, *d2, *i2; char l[256], l2[256]; int r = walk(a, &d, l, &i, 0, 0); if (r < 0) return r; if (!i) return -ENOENT; r = walk(b, &d2, l2, &i2, 0, 0); if (r < 0) return r; if (i2) return -EEXIST; if (i->type == S_IFDIR) return -EPERM; if (!perm(d2, 3)) return -EACCES; dadd(d2, l2, i); Undo *u = jadd(U_ADD, d2); u->ino = i; u->name = strdup(l2); return 0; }
SYSC(int, symlink, S_symlink, (const char *a, const char *b), (a, b)) { Ino *d2, *i2; char l2[256]; int r = walk(b, &d2, l2, &i2, 0, 0); if (r < 0) return r; if (i2) return -EEXIST; if (!perm(d2, 3)) return -EACCES; Ino *i = mkino(S_IFLNK, 0777, cur->euid, cur->egid, d2->dev); i->target = strdup(a); dadd(d2, l2, i); Undo *u = jadd(U_ADD, d2); u->ino = i; u->name = strdup(l2); return 0; }
SYSC(long, readlink, S_readlink, (const char *a, char *buf, size_t n), (a, buf, n)) { Ino *d, *i; char l[256]; int r = walk(a, &d, l, &i, 0, 0); if (r < 0) return r; if (!i) return -ENOENT; if (i->type != S_IFLNK) return -EINVAL; size_t k = strlen(i->target); if (k > n) k = n; memcpy(buf, i->target, k); return k; }
SYSC(int, mkdir, S_mkdir, (const char *path, int mode), (path, mode)) { Ino *d, *i; char l[256]; int r = walk(path, &d, l, &i, 0, 0); if (r < 0) return r; if (i) return -EEXIST; if (!perm(d, 3)) return -EACCES; i = mkino(S_IFDIR, mode & ~cur->umask, cur->euid, cur->egid, d->dev); dadd(d, l, i); Undo *u = jadd(U_ADD, d); u->ino = i; u->name = strdup(l); return 0; }
static int setattr(Ino *i, int mode, int uid, int gid)
{
    if (mode >= 0) { if (cur->euid && cur->euid != i->uid) return -EPERM; }
    if (uid >= 0 && uid != i->uid && cur->euid) return -EPERM;
    if (gid >= 0 && gid != i->gid && cur->euid) { if (cur->euid != i->uid) return -EPERM; int in = gid == cur->egid; for (int k = 0; k < cur->ng; k++) if ((int)cur->groups[k] == gid) in = 1; if (!in) return -EPERM; }
    Undo *u = i->dev ? NULL : jadd(U_ATTR, NULL); if (u) { u->ino = i; u->a = i->mode; u->b = i->uid; u->c = i->gid; }
    if (mode >= 0) i->mode = mode & 07777; if (uid >= 0) { i->uid = uid; if (cur->euid) i->mode &= ~06000; } if (gid >= 0) i->gid = gid; i->ctime = rtime(); return 0;
}
SYSC(int, chmod, S_chmod, (const char *p, int m), (p, m)) { int e; Ino *i = lookup(p, &e); return i ? setattr(i, m, -1, -1) : e; }
SYSC(int, fchmod, S_fchmod, (int fd, int m), (fd, m)) { File *f = getf(fd); if (!f) return -EBADF; return f->ino ? setattr(f->ino, m, -1, -1) : 0; }
SYSC(int, chown, S_chown, (const char *p, int u, int g), (p, u, g)) { int e; Ino *i = lookup(p, &e); return i ? setattr(i, -1, u, g) : e; }
SYSC(int, fchown, S_fchown, (int fd, int u, int g), (fd, u, g)) { File *f = getf(fd); if (!f) return -EBADF; return f->ino ? setattr(f->ino, -1, u, g) : 0; }
SYSC(int, fcntl, S_fcntl, (int fd, int cmd, long arg), (fd, cmd, arg))
{
    File *f = getf(fd); if (!f) return -EBADF;
    switch (cmd) {
    case F_GETFD: return cur->cx[fd]; case F_SETFD: cur->cx[fd] = arg & 1; return 0;
    case F_GETFL: return f->flags; case F_SETFL: f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return 0;
    case F_DUPFD: f->ref++; return newfd(cur, f, arg);
    case F_DUPFD_CLOEXEC: { f->ref++; int r = newfd(cur, f, arg); if (r >= 0) cur->cx[r] = 1; return r; }
    case F_SETLK: case F_SETLKW: return 0;
    }
    return -EINVAL;
}
SYSC(int, ftruncate, S_ftruncate, (int fd, long len), (fd, len)) { File *f = getf(fd); if (!f || f->type != F_REG) return -EBADF; if (len < 0) return -EINVAL; ino_op(f->ino, 1, 0, NULL, len); return 0; }
static int do_fsync(int fd, int d) { File *f = getf(fd); if (!f) return -EBADF; if (f->ino) { if (f->ino->type == S_IFREG) ino_sync(f->ino); jcommit(); return 0; } return -EINVAL; }
int k_fsync(int fd, int d)
{
    File *f0 = getf(fd); int r = sc_enter(f0 && f0->ino && f0->ino->type == S_IFREG ? S_fdatasync : S_fsync); if (r >= 0) return sc_leave(do_fsync(fd, d));
    /* the data could not be flushed: it may never reach the disk */
    File *f = getf(fd); if (f && f->ino && f->ino->type == S_IFREG && !f->ino->dev && f->ino->len) {
        Ino *i = f->ino; ino_sync(i); i->slen = 0;
        WOp *w = calloc(1, sizeof *w); w->t = INT64_MAX; w->len = i->len; w->data = malloc(i->len + 1); memcpy(w->data, i->data, i->len); i->w = i->wtail = w;
    }
    return sc_leave(r);
}
SYSC(int, flock, S_flock, (int fd, int op), (fd, op))
{
    File *f = getf(fd); if (!f || !f->ino) return -EBADF; int nb = op & LOCK_NB; op &= ~LOCK_NB;
    if (op == LOCK_UN) { if (f->lockt == 2) f->ino->lock_ex = NULL; else if (f->lockt == 1) f->ino->nsh--; f->lockt = 0; return 0; }
    int t = op == LOCK_EX ? 2 : 1;
    while (!lock_ok(f, t)) { if (nb) return -EWOULDBLOCK; cur->wf = f; cur->wlk = t; int r = block(W_LOCK, -1); if (r == -EINTR && !restartable()) return -EINTR; }
    if (f->lockt == 2) f->ino->lock_ex = NULL; else if (f->lockt == 1) f->ino->nsh--;
    f->lockt = t; if (t == 2) f->ino->lock_ex = f; else f->ino->nsh++; return 0;
}
SYSC(int, dup, S_dup, (int fd), (fd)) { File *f = getf(fd); if (!f) return -EBADF; f->ref++; return newfd(cur, f, 0); }
SYSC(int, dup2, S_dup2, (int a, int b), (a, b)) { File *f = getf(a); if (!f || b < 0 || b >= FDMAX) return -EBADF; if (a == b) return b; f->ref++; if (cur->fd[b]) file_put(cur->fd[b]); cur->fd[b] = f; cur->cx[b] = 0; return b; }
SYSC(int, pipe, S_pipe, (int fds[2], int fl), (fds, fl))
{
    Pipe *p = calloc(1, sizeof *p); p->cap = pipe_cap; p->b = malloc(p->cap); p->rd = p->wr = 1;
    File *r = mkfile(F_PR), *w = mkfile(F_PW); r->pipe = w->pipe = p; r->flags = O_RDONLY | (fl & O_NONBLOCK); w->flags = O_WRONLY | (fl & O_NONBLOCK);
    int a = newfd(cur, r, 0); if (a < 0) { file_put(w); return a; } int b = newfd(cur, w, 0); if (b < 0) { cur->fd[a] = NULL; file_put(r); return b; }
    if (fl & O_CLOEXEC) cur->cx[a] = cur->cx[b] = 1; fds[0] = a; fds[1] = b; return 0;
}
int k_getdents(int fd, int idx, char *name, u64 *ino, int *type)
{
    File *f = getf(fd);
    if (idx == 0) {
        int r = sc_enter(S_getdents); if (r < 0) return sc_leave(r); if (!f || f->type != F_DIR) return sc_leave(-EBADF);
        for (int i = 0; i < f->nsnap; i++) free(f->snap[i]); f->nsnap = 0;
        int n = 2; for (Dent *e = f->ino->ents; e; e = e->next) n++;
        f->snap = realloc(f->snap, n * sizeof(char *)); f->snap[f->nsnap++] = strdup("."); f->snap[f->nsnap++] = strdup("..");
        for (Dent *e = f->ino->ents; e; e = e->next) { u64 h = mix(seed ^ hstr(e->name)); int j = f->nsnap++; while (j > 0 && mix(seed ^ hstr(f->snap[j - 1])) > h) { f->snap[j] = f->snap[j - 1]; j--; } f->snap[j] = strdup(e->name); }
        sc_leave(0);
    }
    if (idx >= f->nsnap) return 0;
    snprintf(name, 256, "%s", f->snap[idx]); Dent *e = dfind(f->ino, name); *ino = e ? e->ino->num : f->ino->num; *type = e ? e->ino->type >> 12 : 4; return 1;
}
void k_sync(void) { for (int i = 0; i < nino; i++) ino_sync(allino[i]); jcommit(); }

/* ---------------------------------------------------------------- processes */
int k_fork(void)
{
    int r = sc_enter(S_fork); if (r < 0) return sc_leave(r);
    int live = 0; for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE) live++;
    if (forklimit || live >= nproc_limit) return sc_leave(-EAGAIN);
    if (!cur->prog) die("native fork");
    cur->wantfork = 1; cur->forkret = -1; to_sched();
    return sc_leave(cur->forkret);
}
static void nat_sh(Proc *), nat_mail(Proc *), nat_true(Proc *), nat_ed(Proc *), nat_dynraw(Proc *);
static void dump_exec(Proc *p)
{
    ev_begin("exec"); ev_proc(p); ev_i("ppid", p->ppid); ev_s("exe", p->exe);
    fputs(",\"argv\":[", tr); for (int i = 0; i < p->argc; i++) { if (i) fputc(',', tr); hx(hstr(p->argv[i])); jstr(p->argv[i], -1); } fputs("]", tr);
    if (p->nat) {
        fputs(",\"env\":[", tr); for (int i = 0; p->envp[i]; i++) { if (i) fputc(',', tr); hx(hstr(p->envp[i])); jstr(p->envp[i], -1); } fputs("]", tr);
        fputs(",\"fds\":[", tr); int c = 0;
        for (int i = 0; i < FDMAX; i++) if (p->fd[i]) { static const char *tn[] = { "reg", "dir", "pr", "pw", "sock", "tfd", "null", "data", "cap", "tty" }; char b[300]; File *f = p->fd[i]; snprintf(b, sizeof b, "%s:%s:%d", tn[f->type], f->path, f->flags & O_ACCMODE); fprintf(tr, "%s[%d,", c++ ? "," : "", i); jstr(b, -1); fputc(']', tr); hx(i * 16 + f->type); }
        fputs("]", tr);
        char ig[256]; int n = 0; ig[0] = 0; for (int s = 1; s < 32; s++) if (p->sa[s].sa_handler == SIG_IGN) n += snprintf(ig + n, sizeof ig - n, "%s%d", n ? "," : "", s);
        fprintf(tr, ",\"ign\":[%s],\"blk\":%lu,\"stdin0\":%d", ig, (unsigned long)p->blk, p->fd[0] ? p->fd[0]->type : -1);
    }
    ev_i("ruid", p->ruid); ev_i("euid", p->euid); ev_i("suid", p->suid); ev_i("rgid", p->rgid); ev_i("egid", p->egid); ev_i("sgid", p->sgid);
    fputs(",\"groups\":[", tr); for (int i = 0; i < p->ng; i++) { fprintf(tr, "%s%d", i ? "," : "", (int)p->groups[i]); hx(p->groups[i]); } fputs("]", tr);
    ev_i("umask", p->umask); ev_i("nice", p->nice); ev_s("cwd", p->cwdp); ev_i("sid", p->sid); ev_i("pgid", p->pgid);
    if (p->job) ev_i("job", p->job);
    if (p->tag) ev_i("tag", p->tag);
    ev_end();
}
static int set_image(Proc *p, const char *path, char *const argv[], char *const envp[])
{
    int e = 0; Ino *i = lookup(path, &e); if (!i) return e;
    if (i->type != S_IFREG) return -EACCES; if (!perm(i, 1)) return -EACCES;
    char kind[64]; long n = i->len < 63 ? i->len : 63; memcpy(kind, i->data ? i->data : "", n); kind[n] = 0;
    Prog *g = NULL; void (*nat)(Proc *) = NULL;
    if (!strncmp(kind, "prog:", 5)) { for (int k = 0; k < nprogs; k++) if (!strcmp(progs[k].name, kind + 5)) g = &progs[k]; }
    else if (!strncmp(kind, "stub:sh", 7)) nat = nat_sh; else if (!strncmp(kind, "stub:mail", 9)) nat = nat_mail; else if (!strncmp(kind, "stub:true", 9)) nat = nat_true; else if (!strncmp(kind, "stub:ed", 7)) nat = nat_ed; else if (!strncmp(kind, "stub:dynraw", 11)) nat = nat_dynraw;
    if (!g && !nat) return -ENOEXEC;
    char *na[NARG + 1], *ne[NARG + 1]; int c = 0, k = 0;
    for (; argv && argv[c] && c < NARG - 1; c++) na[c] = strdup(argv[c]); na[c] = NULL;
    for (; envp && envp[k] && k < NARG - 1; k++) ne[k] = strdup(envp[k]); ne[k] = NULL;
    char pth[256]; snprintf(pth, sizeof pth, "%s", path);
    freeargs(p); memcpy(p->argv, na, sizeof(char *) * (c + 1)); memcpy(p->envp, ne, sizeof(char *) * (k + 1)); p->argc = c; strcpy(p->exe, pth);
    for (int fd = 0; fd < FDMAX; fd++) if (p->fd[fd] && p->cx[fd]) { file_put(p->fd[fd]); p->fd[fd] = NULL; p->cx[fd] = 0; }
    if (i->mode & 04000) { p->euid = p->suid = i->uid; } else p->suid = p->euid;
    if (i->mode & 02000) { p->egid = p->sgid = i->gid; } else p->sgid = p->egid;
    for (int s = 1; s < 65; s++) if (p->sa[s].sa_handler != SIG_IGN) memset(&p->sa[s], 0, sizeof p->sa[s]);
    if (p->prog && p->prog->owner == p) p->prog->owner = NULL;
    img_free(p);
    p->prog = g; p->nat = nat; p->fresh = 1; p->state = ST_RUN; p->isready = 0; p->job = 0; p->alarm_at = p->alarm_at;
    if (nat == nat_sh && c >= 3) { const char *q = argv == (char *const *)p->argv ? p->argv[2] : p->argv[2]; while ((q = strchr(q, 'J')) != NULL) { if (isdigit(q[1]) && (q == p->argv[2] || q[-1] == ' ')) { p->job = atoi(q + 1); break; } q++; } }
    dump_exec(p);
    return 0;
}
int k_execve(const char *path, char *const argv[], char *const envp[])
{
    int r = sc_enter(S_execve); if (r < 0) return sc_leave(r);
    r = set_image(cur, path, argv, envp); if (r < 0) { ev_begin("execfail"); ev_proc(cur); ev_s("path", path); ev_i("err", -r); fputs(",\"argv\":[", tr); for (int i = 0; argv[i]; i++) { if (i) fputc(',', tr); jstr(argv[i], -1); } fputs("]", tr); ev_i("euid", cur->euid); ev_end(); return sc_leave(r); }
    void *d; k_swtch(&d, sched_rsp); die("exec returned"); return 0;
}
void k_exit(int code) { sc_enter(S_exit); terminate(cur, (code & 255) << 8); die("exit returned"); }
void k_abort(int sig) { terminate(cur, sig); die("abort returned"); }
SYSC(int, waitpid, S_waitpid, (int pid, int *st, int opts), (pid, st, opts))
{
    for (;;) {
        int al, b = waitany(cur, pid, &al);
        if (b >= 0) { int p = procs[b].pid; if (st) *st = procs[b].status; reap(&procs[b]); return p; }
        if (!al) return -ECHILD;
        if (opts & WNOHANG) return 0;
        cur->wpid = pid; int r = block(W_CHILD, -1); if (r == -EINTR && !restartable()) return -EINTR;
    }
}
SYSC(int, kill, S_kill, (int pid, int sig), (pid, sig))
{
    int hit = 0, denied = 0;
    if (sig < 0 || sig > 64) return -EINVAL;
    ev_begin("kill"); ev_proc(cur); ev_i("to", pid); ev_i("sig", sig); ev_i("euid", cur->euid);
    { Proc *q = pid > 0 ? findpid(pid) : NULL; if (q) { ev_s("tn", q->name); ev_i("tj", q->job); } }
    ev_end();
    if (pid > 0 && pid == 1) return cur->euid ? -EPERM : 0;
    for (int i = 0; i < nprocs; i++) { Proc *q = &procs[i]; if (q->state == ST_FREE) continue;
        if (pid > 0 ? q->pid != pid : pid == 0 ? q->pgid != cur->pgid : pid == -1 ? q == cur : q->pgid != -pid) continue;
        if (cur->euid && cur->euid != q->ruid && cur->euid != q->suid && cur->ruid != q->ruid && cur->ruid != q->suid) { denied++; continue; }
        hit++; if (sig && q->state != ST_ZOMB) sig_post(q, sig); }
    return hit ? 0 : denied ? -EPERM : -ESRCH;
}
int k_getpid(void) { return cur->pid; } int k_getppid(void) { return cur->ppid; } int k_getpgrp(void) { return cur->pgid; }
int k_getuid(void) { return cur->ruid; } int k_geteuid(void) { return cur->euid; } int k_getgid(void) { return cur->rgid; } int k_getegid(void) { return cur->egid; }
SYSC(int, setuid, S_setuid, (int u), (u)) { if (cur->euid == 0) cur->ruid = cur->euid = cur->suid = u; else if (u == cur->ruid || u == cur->suid) cur->euid = u; else return -EPERM; return 0; }
SYSC(int, seteuid, S_setuid, (int u), (u)) { if (cur->euid == 0 || u == cur->ruid || u == cur->suid) cur->euid = u; else return -EPERM; return 0; }
SYSC(int, setgid, S_setgid, (int u), (u)) { if (cur->euid == 0) cur->rgid = cur->egid = cur->sgid = u; else if (u == cur->rgid || u == cur->sgid) cur->egid = u; else return -EPERM; return 0; }
SYSC(int, setegid, S_setgid, (int u), (u)) { if (cur->euid == 0 || u == cur->rgid || u == cur->sgid) cur->egid = u; else return -EPERM; return 0; }
SYSC(int, setresuid, S_setuid, (int r, int e, int s), (r, e, s)) { int a[3] = { r, e, s }; if (cur->euid) for (int i = 0; i < 3; i++) if (a[i] != -1 && a[i] != cur->ruid && a[i] != cur->euid && a[i] != cur->suid) return -EPERM; if (r != -1) cur->ruid = r; if (e != -1) cur->euid = e; if (s != -1) cur->suid = s; return 0; }
SYSC(int, setresgid, S_setgid, (int r, int e, int s), (r, e, s)) { int a[3] = { r, e, s }; if (cur->euid) for (int i = 0; i < 3; i++) if (a[i] != -1 && a[i] != cur->rgid && a[i] != cur->egid && a[i] != cur->sgid) return -EPERM; if (r != -1) cur->rgid = r; if (e != -1) cur->egid = e; if (s != -1) cur->sgid = s; return 0; }
SYSC(int, setgroups, S_setgroups, (int n, const gid_t *g), (n, g)) { if (cur->euid) return -EPERM; if (n > 32) return -EINVAL; cur->ng = n; for (int i = 0; i < n; i++) cur->groups[i] = g[i]; return 0; }
int k_getgroups(int n, gid_t *g) { if (n == 0) return cur->ng; if (n < cur->ng) return -EINVAL; for (int i = 0; i < cur->ng; i++) g[i] = cur->groups[i]; return cur->ng; }
int k_umask(int m) { int o = cur->umask; cur->umask = m & 0777; return o; }
SYSC(int, setpriority, S_setpriority, (int which, int who, int prio), (which, who, prio))
{
    Proc *q = who == 0 ? cur : findpid(who); if (!q) return -ESRCH; if (prio > 19) prio = 19; if (prio < -20) prio = -20;
    if (cur->euid && cur->euid != q->ruid && cur->euid != q->euid) return -EPERM; if (cur->euid && prio < q->nice) return -EACCES;
    q->nice = prio; ev_begin("renice"); ev_proc(cur); ev_i("to", q->pid); ev_s("tn", q->name); ev_i("tj", q->job); ev_i("prio", prio); ev_end(); return 0;
}
int k_getpriority(int which, int who, int *out) { Proc *q = who == 0 ? cur : findpid(who); if (!q) return -ESRCH; *out = q->nice; return 0; }
SYSC(int, nice, S_setpriority, (int inc, int *out), (inc, out)) { int v = cur->nice + inc; if (v > 19) v = 19; if (v < -20) v = -20; if (cur->euid && v < cur->nice) return -EPERM; cur->nice = v; *out = v; return 0; }
SYSC(int, setsid, S_misc, (void), ()) { if (cur->pgid == cur->pid) return -EPERM; cur->sid = cur->pgid = cur->pid; return cur->pid; }
SYSC(int, setpgid, S_misc, (int p, int g), (p, g)) { Proc *q = p ? findpid(p) : cur; if (!q) return -ESRCH; q->pgid = g ? g : q->pid; return 0; }
SYSC(int, chdir, S_chdir, (const char *p), (p)) { int e; Ino *i = lookup(p, &e); if (!i) return e; if (i->type != S_IFDIR) return -ENOTDIR; if (!perm(i, 1)) return -EACCES; cur->cwd = i; if (p[0] == '/') snprintf(cur->cwdp, sizeof cur->cwdp, "%s", p); else if (strcmp(p, ".")) { size_t l = strlen(cur->cwdp); snprintf(cur->cwdp + l, sizeof cur->cwdp - l, "/%s", p); } return 0; }
int k_getcwd(char *buf, size_t n) { if (strlen(cur->cwdp) + 1 > n) return -ERANGE; strcpy(buf, cur->cwdp); return 0; }
int k_sigaction(int s, const struct sigaction *n, struct sigaction *o) { if (s < 1 || s > 64) return -EINVAL; if (o) *o = cur->sa[s]; if (n) { if (s == SIGKILL || s == SIGSTOP) return -EINVAL; cur->sa[s] = *n; if (n->sa_handler == SIG_IGN) cur->pend &= ~(1ULL << s); } int i = sc_enter(S_sigaction); (void)i; return sc_leave(0); }
static u64 set2m(const sigset_t *s) { u64 m = 0; for (int k = 1; k < 64; k++) if (sigismember(s, k) == 1) m |= 1ULL << k; return m & ~(1ULL << SIGKILL) & ~(1ULL << SIGSTOP); }
int k_sigprocmask(int how, const sigset_t *n, sigset_t *o) { if (o) { sigemptyset(o); for (int k = 1; k < 64; k++) if (cur->blk >> k & 1) sigaddset(o, k); } if (n) { u64 m = set2m(n); if (how == SIG_BLOCK) cur->blk |= m; else if (how == SIG_UNBLOCK) cur->blk &= ~m; else cur->blk = m; } return sc_leave(0); }
int k_sigsuspend(const sigset_t *m) { int i = sc_enter(S_sigsuspend); (void)i; u64 o = cur->blk; if (m) cur->blk = set2m(m); block(W_SUSP, -1); deliver(); cur->blk = o; return sc_leave(-EINTR); }
int k_nanosleep(i64 us, i64 *rem) { int i = sc_enter(S_nanosleep); if (i < 0) { if (rem) *rem = us; return sc_leave(i); } i64 dl = now_us + us; int r = block(W_SLEEP, dl); if (r == -EINTR) { if (rem) *rem = dl > now_us ? dl - now_us : 0; return sc_leave(-EINTR); } if (rem) *rem = 0; return sc_leave(0); }
void k_gettime(int clk, struct timespec *ts)
{
    sc_enter(S_time);
    i64 t = clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? rtime() : clk == CLOCK_BOOTTIME ? now_us + boot_off : now_us;
    ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; sc_leave(0);
}
int k_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv, const sigset_t *m)
{
    int i = sc_enter(S_select); if (i < 0) return sc_leave(i);
    i64 dl = tv ? now_us + (i64)tv->tv_sec * 1000000 + tv->tv_usec : -1; u64 ob = cur->blk;
    if (tv && (tv->tv_usec < 0 || tv->tv_usec > 999999 || tv->tv_sec < 0)) return sc_leave(-EINVAL);
    if (n > FDMAX) n = FDMAX;
    for (int k = 0; k < n; k++) if ((r && FD_ISSET(k, r)) || (w && FD_ISSET(k, w))) if (!cur->fd[k]) return sc_leave(-EBADF);
    if (m) cur->blk = set2m(m);
    FD_ZERO(&cur->wr); FD_ZERO(&cur->ww); if (r) cur->wr = *r; if (w) cur->ww = *w; cur->wn = n;
    int res = 0;
    if (!cond((cur->wk = W_SELECT, cur)) || (m && deliverable(cur))) { cur->wk = W_NONE; if (deliverable(cur)) res = -EINTR; else if (dl < 0 || dl > now_us) res = block(W_SELECT, dl); }
    cur->wk = W_NONE;
    if (res == -EINTR) { deliver(); cur->blk = ob; return sc_leave(-EINTR); }
    cur->blk = ob;
    if (tv) { i64 l = dl - now_us; if (l < 0) l = 0; tv->tv_sec = l / 1000000; tv->tv_usec = l % 1000000; }
    int c = 0; fd_set orr, oww; FD_ZERO(&orr); FD_ZERO(&oww);
    for (int k = 0; k < n; k++) { if (FD_ISSET(k, &cur->wr) && cur->fd[k] && readable(cur->fd[k])) { FD_SET(k, &orr); c++; } if (FD_ISSET(k, &cur->ww) && cur->fd[k] && writable(cur->fd[k])) { FD_SET(k, &oww); c++; } }
    if (r) *r = orr; if (w) *w = oww; if (e) FD_ZERO(e);
    return sc_leave(c);
}
int k_poll(struct pollfd *p, int n, int tmo)
{
    int i = sc_enter(S_poll); if (i < 0) return sc_leave(i); if (n > 64) return sc_leave(-EINVAL);
    memcpy(cur->wp, p, n * sizeof *p); cur->wn = n; cur->wk = W_POLL; int c = cond(cur); cur->wk = W_NONE;
    if (!c && tmo) { int r = block(W_POLL, tmo < 0 ? -1 : now_us + (i64)tmo * 1000); if (r == -EINTR) return sc_leave(-EINTR); }
    c = 0; for (int k = 0; k < n; k++) { p[k].revents = 0; int fd = p[k].fd; if (fd < 0) continue; File *f = getf(fd); if (!f) p[k].revents = POLLNVAL; else { if ((p[k].events & POLLIN) && readable(f)) p[k].revents |= POLLIN; if ((p[k].events & POLLOUT) && writable(f)) p[k].revents |= POLLOUT; } if (p[k].revents) c++; }
    return sc_leave(c);
}
SYSC(int, timerfd_create, S_timerfd, (int clk, int fl), (clk, fl)) { File *f = mkfile(F_TFD); int r = newfd(cur, f, 0); if (r >= 0 && (fl & O_CLOEXEC)) cur->cx[r] = 1; return r; }
SYSC(int, timerfd_settime, S_timerfd, (int fd, int fl, const struct itimerspec *n), (fd, fl, n)) { File *f = getf(fd); if (!f || f->type != F_TFD) return -EBADF; f->tfd_set = (fl & 2) != 0; f->tfd_gen = clkset_gen; f->tfd_at = n->it_value.tv_sec > 4000000000L ? 0 : n->it_value.tv_sec * 1000000LL; return 0; }

/* ---------------------------------------------------------------- sockets */
static Sock *mksock(void) { Sock *s = calloc(1, sizeof *s); s->cap = sock_cap; s->b = malloc(sock_cap); return s; }
SYSC(int, socket, S_socket, (int d, int t, int p), (d, t, p)) { if (d != AF_UNIX) return -EAFNOSUPPORT; File *f = mkfile(F_SOCK); f->sock = mksock(); if (t & SOCK_NONBLOCK) f->flags |= O_NONBLOCK; f->flags |= O_RDWR; int fd = newfd(cur, f, 0); if (fd >= 0 && (t & SOCK_CLOEXEC)) cur->cx[fd] = 1; return fd; }
SYSC(int, bind, S_bind, (int fd, const struct sockaddr *a, int len), (fd, a, len))
{
    File *f = getf(fd); if (!f || !f->sock) return -EBADF; const struct sockaddr_un *u = (void *)a; Ino *d, *i; char l[256]; char path[128]; int pl = len - (int)offsetof(struct sockaddr_un, sun_path); if (pl > 108) pl = 108; if (pl < 0) pl = 0; memcpy(path, u->sun_path, pl); path[pl] = 0;
    int r = walk(path, &d, l, &i, 1, 0); if (r < 0) return r; if (i) return -EADDRINUSE; if (!perm(d, 3)) return -EACCES;
    i = mkino(S_IFSOCK, 0777 & ~cur->umask, cur->euid, cur->egid, d->dev); dadd(d, l, i); Undo *un = jadd(U_ADD, d); un->ino = i; un->name = strdup(l); f->sock->state = 1; f->sock->node = i; i->listener = f->sock; return 0;
}
SYSC(int, listen, S_listen, (int fd, int n), (fd, n)) { File *f = getf(fd); if (!f || !f->sock) return -EBADF; if (f->sock->state != 1) return -EINVAL; f->sock->state = 2; f->sock->backlog = n > 60 ? 60 : n < 1 ? 1 : n; return 0; }
SYSC(int, connect, S_connect, (int fd, const struct sockaddr *a, int len), (fd, a, len))
{
    File *f = getf(fd); if (!f || !f->sock) return -EBADF; const struct sockaddr_un *u = (void *)a; char path[128]; int pl = len - (int)offsetof(struct sockaddr_un, sun_path); if (pl > 108) pl = 108; if (pl < 0) pl = 0; memcpy(path, u->sun_path, pl); path[pl] = 0;
    if (f->sock->state == 3) return -EISCONN;
    for (;;) {
        int e = 0; Ino *i = lookup(path, &e); if (!i) return e; if (i->type != S_IFSOCK) return -ECONNREFUSED; if (!perm(i, 2)) return -EACCES;
        Sock *ls = i->listener; if (!ls || ls->state != 2) return -ECONNREFUSED;
        if (ls->nq < ls->backlog + 1 && ls->nq < 63) {
            Sock *s = mksock(), *c = f->sock; s->state = c->state = 3; s->peer = c; c->peer = s; s->ppid = cur->pid; s->puid = cur->euid; s->pgid = cur->egid; ls->q[ls->nq++] = s; c->puid = 0; return 0;
        }
        if (f->flags & O_NONBLOCK) return -EAGAIN;
        int r = block(W_SLEEP, now_us + 10000); if (r == -EINTR && !restartable()) return -EINTR;
    }
}
SYSC(int, accept, S_accept, (int fd, struct sockaddr *a, socklen_t *len, int flags), (fd, a, len, flags))
{
    for (;;) {
        File *f = getf(fd); if (!f || !f->sock) return -EBADF; Sock *ls = f->sock; if (ls->state != 2) return -EINVAL;
        if (ls->nq) {
            int k; for (k = 0; k < fdlimit && k < FDMAX && cur->fd[k]; k++); if (k >= fdlimit || k >= FDMAX) return -EMFILE;
            File *n = mkfile(F_SOCK); n->flags = O_RDWR | ((flags & SOCK_NONBLOCK) ? O_NONBLOCK : 0); n->sock = ls->q[0]; memmove(ls->q, ls->q + 1, sizeof ls->q[0] * --ls->nq); int r = newfd(cur, n, 0); if (flags & SOCK_CLOEXEC) cur->cx[r] = 1;
            if (a && len) { if (*len >= 2) a->sa_family = AF_UNIX; *len = 2; }
            return r;
        }
        if (f->flags & O_NONBLOCK) return -EAGAIN;
        cur->wf = f; int r = block(W_ACCEPT, -1); if (r == -EINTR && !restartable()) return -EINTR;
    }
}
SYSC(long, send, S_send, (int fd, const void *b, size_t n, int fl), (fd, b, n, fl)) { File *f = getf(fd); if (!f) return -EBADF; if (!f->sock) return -ENOTSOCK; if (cur->shortn && (long)n > cur->shortn) n = cur->shortn; return sock_write(fd, b, n, fl); }
SYSC(long, recv, S_recv, (int fd, void *b, size_t n, int fl), (fd, b, n, fl))
{
    if (cur->shortn && (long)n > cur->shortn) n = cur->shortn;
    for (;;) {
        File *f = getf(fd); if (!f) return -EBADF; if (!f->sock) return -ENOTSOCK; Sock *s = f->sock; if (s->state != 3) return -ENOTCONN;
        if (readable(f)) { long k = s->len < (long)n ? s->len : (long)n; memcpy(b, s->b, k); if (!(fl & MSG_PEEK)) { memmove(s->b, s->b + k, s->len - k); s->len -= k; } return k; }
        if ((f->flags & O_NONBLOCK) || (fl & MSG_DONTWAIT)) return -EAGAIN;
        cur->wf = f; int r = block(W_READ, -1); if (r == -EINTR && !restartable()) return -EINTR;
    }
}
SYSC(int, shutdown, S_shutdown, (int fd, int how), (fd, how)) { File *f = getf(fd); if (!f || !f->sock) return -EBADF; if (f->sock->state != 3) return -ENOTCONN; if (how != SHUT_WR) f->sock->rdshut = 1; if (how != SHUT_RD) { f->sock->wrshut = 1; } return 0; }
SYSC(int, getsockopt, S_sockopt, (int fd, int l, int o, void *v, socklen_t *len), (fd, l, o, v, len))
{
    File *f = getf(fd); if (!f || !f->sock) return -EBADF;
    if (l == SOL_SOCKET && o == SO_PEERCRED) { struct ucred { int pid, uid, gid; } u = { f->sock->ppid, f->sock->puid, f->sock->pgid }; memcpy(v, &u, *len < sizeof u ? *len : sizeof u); return 0; }
    if (l == SOL_SOCKET && o == SO_ERROR) { *(int *)v = 0; return 0; }
    return 0;
}
SYSC(int, setsockopt, S_sockopt, (int fd, int l, int o, const void *v, socklen_t len), (fd, l, o, v, len)) { File *f = getf(fd); return f && f->sock ? 0 : -EBADF; }
SYSC(int, ioctl, S_misc, (int fd, unsigned long req), (fd, req)) { return getf(fd) ? -ENOTTY : -EBADF; }
int k_tcecho(int fd, int set, int echo) { File *f = getf(fd); if (!f || f->type != F_TTY) return -ENOTTY; int i = sc_enter(S_misc); if (i < 0) return sc_leave(i); if (set) { f->noecho = !echo; ev_begin("ttyset"); ev_proc(cur); ev_i("echo", echo); ev_end(); } return sc_leave(!f->noecho); }
int k_isatty(int fd) { File *f = getf(fd); return f && f->type == F_TTY; }
int k_alarm(int s) { i64 o = cur->alarm_at; cur->alarm_at = s ? now_us + (i64)s * 1000000 : -1; return o < 0 ? 0 : (o - now_us + 999999) / 1000000; }
SYSC(int, loadavg, S_loadavg, (double *v, int n), (v, n)) { int i; for (i = 0; i < n && i < lavgn; i++) v[i] = lavg[i]; return i; }
int k_gethostname(char *b, size_t n) { snprintf(b, n, "simhost"); return 0; }
void k_syslog(int pri, const char *m) { if (logon) { ev_begin("log"); ev_proc(cur); ev_i("pri", pri & 7); ev_s("m", m); ev_end(); } }
void k_openlog(void) { }
int k_pam(int which, const char *user)
{
    int r = sc_enter(S_pam); if (r < 0) return sc_leave(0), PAM_SYSTEM_ERR; sc_leave(0);
    for (int i = 0; i < npam; i++) { char u[64]; int w, c; if (sscanf(pam_rule[i], "%63[^:]:%d:%d", u, &w, &c) == 3 && (!strcmp(u, "*") || !strcmp(u, user)) && w == which) return c; }
    ev_begin("pam"); ev_proc(cur); ev_i("w", which); ev_s("user", user); ev_end();
    return PAM_SUCCESS;
}
int k_pamask(const char *user) { for (int i = 0; i < npam; i++) { char u[64]; int w, c; if (sscanf(pam_rule[i], "%63[^:]:%d:%d", u, &w, &c) == 3 && (!strcmp(u, "*") || !strcmp(u, user)) && w == 9) return c; } return 0; }
int k_mem_fault(size_t n) { if (!nfaults || !cur) return 0; cur->nmalloc++; return fault_hit(S_malloc) < 0; }
void k_note(const char *what, const char *arg) { ev_begin("note"); if (cur) ev_proc(cur); ev_s("what", what); ev_s("arg", arg); ev_end(); }
u64 k_random_seed(void) { static u64 c; return mix(seed ^ mix(hstr(cur->name) + ++c)) >> 4; }
static char curtz[256] = "\1";
static void usetz(const char *tz) { const char *z = tz ? tz : "UTC0"; if (*z == ':') z++; if (strcmp(z, curtz)) { snprintf(curtz, sizeof curtz, "%s", z); setenv("TZ", z, 1); tzset(); } }
int k_localtime(const char *tz, const time_t *t, struct tm *o) { usetz(tz); if (!localtime_r(t, o)) return 0; o->tm_zone = "XXX"; return 1; }
time_t k_mktime(const char *tz, struct tm *tm) { usetz(tz); time_t r = mktime(tm); tm->tm_zone = "XXX"; return r; }
size_t k_strftime(const char *tz, char *b, size_t n, const char *f, const struct tm *tm) { usetz(tz); struct tm x = *tm; return strftime(b, n, f, &x); }

/* ================================================================ stub programs */
static void nat_sleep(i64 us) { i64 end = now_us + us; while (now_us < end) { i64 r = k_nanosleep(end - now_us, NULL); (void)r; } }
static void nat_write(int fd, const char *b, long n) { while (n > 0) { long r = k_write(fd, b, n); if (r == -EINTR) continue; if (r <= 0) { ev_begin("stubwerr"); ev_proc(cur); ev_i("err", -r); ev_end(); return; } b += r; n -= r; } }
static void nat_pattern(int fd, int job, long n)
{   /* n bytes of recognisable lines */
    char line[128]; long done_ = 0; int k = 0;
    while (done_ < n) { int l = snprintf(line, sizeof line, "J%d line %d abcdefghijklmnopqrstuvwxyz\n", job, k++); if (l > n - done_) { l = n - done_; line[l - 1] = '\n'; } nat_write(fd, line, l); done_ += l; }
}
static void ign_handler(int s) { }
static void bg_holder(Proc *p) { nat_sleep((i64)p->nmalloc * 1000000); }
static void nat_cmds(char *cmd)
{
    char *tok[256]; int n = 0; for (char *q = strtok(cmd, " \t"); q && n < 255; q = strtok(NULL, " \t")) tok[n++] = q;
    int job = 0, code = 0;
    for (int i = 0; i < n; i++) {
        char *a = tok[i]; long v = atol(a + 1);
        switch (a[0]) {
        case '#': n = 0; break; /* a comment */
        case 'J': job = v; break;
        case 'd': nat_sleep(v * 1000000LL); break;
        case 'm': nat_sleep(v * 1000LL); break;
        case 'o': nat_pattern(1, job, v); break;
        case 'e': nat_pattern(2, job, v); break;
        case 'w': { char *u = unesc(a + 1); long l = unesc_len(a + 1); for (long x = 0; x < l; x++) if (u[x] == '_') u[x] = ' '; nat_write(1, u, l); nat_write(1, "\n", 1); free(u); break; }
        case 'n': { char *u = unesc(a + 1); nat_write(1, u, unesc_len(a + 1)); free(u); break; }
        case 'x': code = v; break;
        case 'k': k_kill(k_getpid(), v); break;
        case 'T': { struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = SIG_IGN; k_sigaction(v ? v : SIGTERM, &s, NULL); break; }
        case 'N': { int o; k_nice(v, &o); break; }
        case 'F': { /* background process keeping our descriptors open */
            Proc *c = newproc(); int ix = c->idx, pid = c->pid; char *st = c->nstk; *c = *cur; c->idx = ix; c->pid = pid; c->nstk = st; c->ppid = cur->pid; c->pend = 0; c->nchild = 0; c->nsys = 0; c->tag = 0; c->cout = c->cerr = NULL; c->started = now_us; c->job = 0;
            snprintf(c->name, sizeof c->name, "%.50s.b%d", cur->name, ++cur->nchild); for (int j = 0; j < FDMAX; j++) if (c->fd[j]) c->fd[j]->ref++;
            for (int j = 0; j < NARG && c->argv[j]; j++) c->argv[j] = strdup(c->argv[j]); for (int j = 0; j < NARG && c->envp[j]; j++) c->envp[j] = strdup(c->envp[j]);
            c->nat = bg_holder; c->nmalloc = v; c->fresh = 1; c->state = ST_RUN; c->isready = 0; c->wk = W_NONE; c->wake = -1; break; }
        case 'R': { char b[256]; long r, tot = 0; while ((r = k_read(0, b, sizeof b)) > 0) tot += r; ev_begin("stubread"); ev_proc(cur); ev_i("n", tot); ev_i("job", job); ev_end(); break; }
        }
    }
    k_exit(code);
}
static void edit_file(const char *path)
{   /* the next prepared edit replaces the file. EDN: its number, EDS: delay in ms, EDQ: several edits one after the other (EDN, EDN+1, ...),
       EDX: exit status, EDK: dies from a signal (after the change), EDR: 1 replaces the file by a new one, 2 removes it, 3 writes slowly in small parts. EDU: leaves a file alone which is already as wanted */
    static int nedit; char src[64]; int en = -1, es = 0, eq = 0, ex = 0, ek = 0, er = 0, eu = 0;
    for (int j = 0; cur->envp[j]; j++) { char *q = cur->envp[j]; if (!strncmp(q, "EDU=", 4)) eu = atoi(q + 4); if (!strncmp(q, "EDN=", 4)) en = atoi(q + 4); if (!strncmp(q, "EDS=", 4)) es = atoi(q + 4); if (!strncmp(q, "EDQ=", 4)) eq = atoi(q + 4); if (!strncmp(q, "EDX=", 4)) ex = atoi(q + 4); if (!strncmp(q, "EDK=", 4)) ek = atoi(q + 4); if (!strncmp(q, "EDR=", 4)) er = atoi(q + 4); }
    if (en < 0) en = nedit++;
    int e; Ino *i = NULL; Cap c = { 0 }; int rd = 0; { int fd = k_open(path, O_RDONLY, 0); if (fd >= 0) { char b[512]; long r; rd = 1; while ((r = k_read(fd, b, 512)) > 0) cap_add(&c, b, r); k_close(fd); } }
    for (int k = 0; k < 1 + eq; k++) {
        snprintf(src, sizeof src, "/plan/edit%d", en + k); Proc *sv = cur; cur = NULL; Ino *n = lookup(src, &e); cur = sv;
        if (!n) break;
        if (!k) i = n;
        if (n->len != c.len || memcmp(n->data, c.b ? c.b : "", c.len)) continue;
        snprintf(src, sizeof src, "/plan/edit%d", en + k + 1); cur = NULL; Ino *m = k < eq ? lookup(src, &e) : NULL; cur = sv; i = m ? m : n; break;
    }
    ev_begin("editor"); ev_proc(cur); ev_s("path", path); if (rd) ev_sn("content", c.b ? c.b : "", c.len); { char w[80]; snprintf(w, sizeof w, "%d %d %d %d %d %d", cur->ruid, cur->euid, cur->suid, cur->rgid, cur->egid, cur->sgid); ev_s("ids", w); } ev_end();
    if (eu && i && c.len && i->len == c.len && !memcmp(i->data, c.b, c.len)) i = NULL;
    free(c.b);
    if (es) nat_sleep(es * 1000LL);
    if (er == 2) k_unlink(path);
    else if (i) {
        char tmp[512]; snprintf(tmp, sizeof tmp, er == 1 ? "%.400s~" : "%.400s", path);
        int fd = k_open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) k_exit(1);
        if (er == 3) { for (long o = 0; o < i->len; ) { long w = i->len > 4000 ? i->len / 100 : 40, n = i->len - o > w ? w : i->len - o; nat_write(fd, i->data + o, n); o += n; nat_sleep(3000); } }
        else nat_write(fd, i->data, i->len);
        k_close(fd); if (er == 1) k_rename(tmp, path);
    }
    if (ek) k_kill(k_getpid(), ek);
    k_exit(ex);
}
static void nat_sh(Proc *p)
{
    if (p->argc < 3 || strcmp(p->argv[1], "-c")) k_exit(2);
    char *c = strdup(p->argv[2]);
    if (c[0] == '/' && strstr(c, "ed")) { char *sp = strrchr(c, ' '); if (sp) { edit_file(sp + 1); k_exit(0); } }
    nat_cmds(c);
}
static void nat_ed(Proc *p) { if (p->argc < 2) k_exit(2); edit_file(p->argv[p->argc - 1]); k_exit(0); }
static int mail_mode; /* 0 ok, 1 exit at once without reading, 2 slow */
static void nat_mail(Proc *p)
{
    Cap c = { 0 }; char b[1024]; long r; int err = 0;
    if (mail_mode == 1) k_exit(75);
    while ((r = k_read(0, b, sizeof b)) != 0) { if (r == -EINTR) continue; if (r < 0) { err = -r; break; } cap_add(&c, b, r); if (mail_mode == 2) nat_sleep(500000); }
    ev_begin("mail"); ev_proc(p); fputs(",\"argv\":[", tr); for (int i = 0; i < p->argc; i++) { if (i) fputc(',', tr); jstr(p->argv[i], -1); } fputs("]", tr); ev_i("err", err); ev_i("uid", p->euid); ev_sn("data", c.b ? c.b : "", c.len); ev_end(); free(c.b);
    k_exit(0);
}
static void nat_true(Proc *p) { k_exit(p->argc > 1 ? atoi(p->argv[1]) : 0); }
/* raw client of the daemon's socket: argv: path, then commands: s<hex> send, r<n> recv up to n, d<ms> delay, c close-and-reopen, R recv until eof (max ms) */
static void nat_dynraw(Proc *p)
{
    struct sockaddr_un u; memset(&u, 0, sizeof u); u.sun_family = AF_UNIX; snprintf(u.sun_path, sizeof u.sun_path, "%s", p->argv[1]);
    int fd = k_socket(AF_UNIX, SOCK_STREAM, 0); int r = k_connect(fd, (void *)&u, offsetof(struct sockaddr_un, sun_path) + strlen(u.sun_path));
    if (r < 0) k_exit(100 - r > 255 ? 255 : 100);
    for (int i = 2; i < p->argc; i++) {
        char *a = p->argv[i]; long v = atol(a + 1); char b[4096];
        if (a[0] == 's') { int n = 0; for (char *q = a + 1; q[0] && q[1] && n < 4096; q += 2) { char h[3] = { q[0], q[1], 0 }; b[n++] = strtol(h, NULL, 16); } long w = k_send(fd, b, n, MSG_NOSIGNAL); if (w < 0) nat_write(2, "send failed\n", 12); }
        else if (a[0] == 'z') { char *big = calloc(1, v + 1); memset(big, 'Z', v); k_send(fd, big, v, MSG_NOSIGNAL); free(big); }
        else if (a[0] == 'd') nat_sleep(v * 1000);
        else if (a[0] == 'r') { long n = k_recv(fd, b, v > 4096 ? 4096 : v, 0); if (n > 0) nat_write(1, b, n); if (n == 0) { nat_write(2, "eof\n", 4); } }
        else if (a[0] == 'R') { i64 end = now_us + v * 1000; for (;;) { struct pollfd pf = { fd, POLLIN, 0 }; int ms = (end - now_us) / 1000; if (ms <= 0) break; if (k_poll(&pf, 1, ms) <= 0) break; long n = k_recv(fd, b, 4096, 0); if (n <= 0) { nat_write(2, "eof\n", 4); break; } nat_write(1, b, n); } }
    }
    k_close(fd); k_exit(0);
}

/* ================================================================ plan operations */
static int proc_daemon(Proc *p) { return p->state != ST_FREE && p->state != ST_ZOMB && p->prog && !strcmp(p->prog->name, "fcron"); }
static Proc *daemon_proc(void)
{   /* the process named in the pid file, as an administrator would find it */
    int e; Proc *sv = cur; cur = NULL; Ino *i = lookup("/var/run/fcron.pid", &e); cur = sv; if (!i || !i->len) return NULL; char b[32]; long n = i->len < 31 ? i->len : 31; memcpy(b, i->data, n); b[n] = 0; Proc *p = findpid(atoi(b)); return p && proc_daemon(p) ? p : NULL;
}
static void do_crash(void)
{
    ev_begin("crash"); ev_end();
    for (int i = 0; i < nprocs; i++) { Proc *p = &procs[i]; if (p->state == ST_FREE) continue; for (int j = 0; j < FDMAX; j++) p->fd[j] = NULL; reap(p); }
    for (int i = 0; i < nprogs; i++) progs[i].owner = NULL;
    fs_crash();
}
static Cap *mkcap(void) { return calloc(1, sizeof(Cap)); }
static void op_run(Op *o, int isd)
{   /* run tag name uid gid groups cwd umask nice stdin env.. -- argv.. ; groups "-" or "1,2" ; stdin "-" null or data */
    if (cur) { /* nested: allowed, the new process simply becomes runnable */ }
    Proc *sv = cur; char **a = o->a; int n = o->n, k = 1;
    Proc *p = newproc(); if (!p) return; p->ppid = 1; p->tag = atoi(a[k++]); snprintf(p->name, sizeof p->name, "%s", a[k++]); p->ruid = p->euid = p->suid = atoi(a[k++]); p->rgid = p->egid = p->sgid = atoi(a[k++]);
    if (strcmp(a[k], "-")) { char *g = strdup(a[k]); for (char *q = strtok(g, ","); q; q = strtok(NULL, ",")) p->groups[p->ng++] = atoi(q); free(g); } k++;
    p->cwd = rootino; strcpy(p->cwdp, "/"); char *cwd = unesc(a[k++]); int e; cur = NULL; Ino *ci = lookup(cwd, &e); if (ci) { p->cwd = ci; snprintf(p->cwdp, sizeof p->cwdp, "%s", cwd); }
    p->umask = strtol(a[k++], NULL, 8); p->nice = atoi(a[k++]); char *in = a[k++]; p->sid = p->pgid = p->pid;
    File *f0 = mkfile(!strncmp(in, "tty:", 4) ? F_TTY : strcmp(in, "-") ? F_DATA : F_NULL); if (f0->type == F_TTY) in += 4; if (f0->type == F_DATA || f0->type == F_TTY) { f0->data = unesc(in); f0->dlen = unesc_len(in); } p->fd[0] = f0;
    p->cout = mkcap(); p->cerr = mkcap(); File *f1 = mkfile(F_CAP), *f2 = mkfile(F_CAP); f1->cap = p->cout; f2->cap = p->cerr; p->fd[1] = f1; p->fd[2] = f2;
    char *env[NARG], *av[NARG]; int ne = 0, na = 0; for (; k < n && strcmp(a[k], "--"); k++) env[ne++] = unesc(a[k]); env[ne] = NULL; k++; for (; k < n; k++) av[na++] = strcmp(a[k], "%") ? unesc(a[k]) : strdup(""); av[na] = NULL;
    cur = p; int r = set_image(p, av[0], av, env); cur = sv;
    if (r < 0) { ev_begin("runfail"); ev_proc(p); ev_i("err", -r); ev_i("tag", p->tag); ev_end(); terminate(p, 127 << 8); }
}
static void ev_file(const char *path)
{
    int e = 0; Proc *sv = cur; cur = NULL; Ino *i = lookup(path, &e); cur = sv; ev_begin("file"); ev_s("path", path); if (i) { ev_i("uid", i->uid); ev_i("gid", i->gid); ev_i("mode", i->mode); ev_i("ino", i->num); ev_i("mt", i->mtime); if (i->type == S_IFREG) ev_sn("data", i->data ? i->data : "", i->len); else if (i->type == S_IFDIR) { fputs(",\"ents\":[", tr); int c = 0; for (Dent *d = i->ents; d; d = d->next) { if (c++) fputc(',', tr); jstr(d->name, -1); hx(hstr(d->name)); } fputs("]", tr); } } else ev_i("err", -e); ev_end();
}
static long img_long(Proc *p, long *addr) { if (p->prog->owner == p) return *addr; for (int i = 0; i < p->prog->nseg; i++) { char *a = p->prog->seg[i].a; if ((char *)addr >= a && (char *)addr < a + p->prog->seg[i].n) return p->img[i] ? *(long *)(p->img[i] + ((char *)addr - a)) : -1; } return -1; }
static void op_probe(const char *label)
{
    Proc *d = daemon_proc(); ev_begin("probe"); ev_s("label", label);
    if (d) {
        ev_proc(d); int n = 0, z = 0, c = 0, so = 0; for (int i = 0; i < FDMAX; i++) if (d->fd[i]) { n++; so += d->fd[i]->type == F_SOCK; } for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].ppid == d->pid) { if (procs[i].state == ST_ZOMB) z++; else c++; }
        ev_i("fds", n); ev_i("socks", so); ev_i("zombies", z); ev_i("children", c); ev_i("nsys", d->nsys); ev_i("live", img_long(d, d->prog->live_bytes)); ev_i("blocks", img_long(d, d->prog->live_blocks)); ev_i("wake", d->state == ST_WAIT ? d->wake : -2); ev_i("euid", d->euid); ev_i("nice", d->nice); ev_i("umask", d->umask);
    }
    int nj = 0; for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].state != ST_ZOMB) nj++; ev_i("procs", nj);
    ev_end();
}
static void clock_changed(void) { clkset_gen++; }
static void exec_op(Op *o)
{
    char **a = o->a; const char *c = a[0];
    hx(o->idx);
#define OP(x) !strcmp(c, x)
    if (OP("run")) op_run(o, 0);
    else if (OP("sig")) { /* sig daemon|name-glob signo */ int s = atoi(a[2]); int hit = 0; if (!strcmp(a[1], "daemon")) { Proc *d = daemon_proc(); if (d) { hit = d->pid; sig_post(d, s); } } else for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].state != ST_ZOMB && !fnmatch(a[1], procs[i].name, 0)) { hit = procs[i].pid; sig_post(&procs[i], s); } ev_begin("sig"); ev_s("to", a[1]); ev_i("sig", s); ev_i("hit", hit); ev_end(); }
    else if (OP("sigjob")) { int j = atoi(a[1]), s = atoi(a[2]), hit = 0; for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].state != ST_ZOMB && procs[i].job == j) { hit = procs[i].pid; sig_post(&procs[i], s); break; } ev_begin("sig"); ev_i("job", j); ev_i("sig", s); ev_i("hit", hit); ev_end(); }
    else if (OP("clock")) { rt_off += atoll(a[1]); clock_changed(); ev_begin("clock"); ev_i("delta", atoll(a[1])); ev_end(); }
    else if (OP("suspend")) { i64 d = atoll(a[1]); ev_begin("suspend"); ev_i("us", d); ev_end(); rt_off += d; boot_off += d; clock_changed(); }
    else if (OP("loadavg")) { for (int i = 0; i < 3; i++) lavg[i] = atof(a[1 + i]); if (o->n > 4) lavgn = atoi(a[4]); ev_begin("lavg"); fprintf(tr, ",\"v\":[%s,%s,%s]", a[1], a[2], a[3]); hx(hstr(a[1])); ev_end(); }
    else if (OP("crash")) { crash_key = o->n > 1 ? atoll(a[1]) : o->idx; want_crash = 1; }
    else if (OP("write")) { /* write path uid gid mode data */ char *p = unesc(a[1]), *d = unesc(o->n > 5 ? a[5] : ""); kmk(p, S_IFREG, strtol(a[4], NULL, 8), atoi(a[2]), atoi(a[3]), d, o->n > 5 ? unesc_len(a[5]) : 0, -1); free(p); free(d); }
    else if (OP("mkdir")) { kmk(a[1], S_IFDIR, strtol(a[4], NULL, 8), atoi(a[2]), atoi(a[3]), NULL, 0, o->n > 5 ? atoi(a[5]) : -1); }
    else if (OP("symlink")) { Ino *d, *i; char l[256]; Proc *sv = cur; cur = NULL; if (walk(a[2], &d, l, &i, 0, 0) == 0 && !i) { i = mkino(S_IFLNK, 0777, 0, 0, d->dev); i->target = strdup(a[1]); dadd(d, l, i); } cur = sv; }
    else if (OP("rm")) { Ino *d, *i; char l[256]; Proc *sv = cur; cur = NULL; if (walk(a[1], &d, l, &i, 0, 0) == 0 && i) ddel(d, l); cur = sv; }
    else if (OP("sync")) k_sync();
    else if (OP("cat")) ev_file(a[1]);
    else if (OP("probe")) op_probe(o->n > 1 ? a[1] : "");
    else if (OP("disk")) { diskfree = atol(a[1]); diskmode = o->n > 2 ? atoi(a[2]) : 1; ev_begin("disk"); ev_i("free", diskfree); ev_end(); }
    else if (OP("forklimit")) { forklimit = atoi(a[1]); ev_begin("forklimit"); ev_i("on", forklimit); ev_end(); }
    else if (OP("mailmode")) mail_mode = atoi(a[1]);
    else if (OP("fdlimit")) fdlimit = atoi(a[1]);
    else if (OP("mark")) { ev_begin("mark"); ev_s("m", o->n > 1 ? a[1] : ""); ev_end(); }
    else if (OP("stall")) { for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].state != ST_ZOMB && !fnmatch(a[1], procs[i].name, 0)) procs[i].stall = now_us + atoll(a[2]); }
    else if (OP("killall")) { for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE && procs[i].state != ST_ZOMB && !fnmatch(a[1], procs[i].name, 0)) sig_post(&procs[i], atoi(a[2])); }
    else if (OP("wiperun")) { ev_begin("wiperun"); ev_end(); for (int k = 0; k < nino; k++) { Ino *i = allino[k]; if (i->dev == 1 && i->type == S_IFDIR) for (;;) { Dent *e; for (e = i->ents; e; e = e->next) if (e->ino->type != S_IFDIR) break; if (!e) break; ddel(i, e->name); } } }
    else if (OP("ps")) { for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE) { Proc *p = &procs[i]; ev_begin("ps"); ev_proc(p); ev_i("ppid", p->ppid); ev_i("state", p->state); ev_i("job", p->job); ev_i("nice", p->nice); ev_i("euid", p->euid); ev_end(); } ev_begin("psend"); ev_end(); }
    else { fprintf(stderr, "bad op %s\n", c); _exit(3); }
}
static void run_ops(void) { while (opnext < nops && ops[opnext].t <= now_us && !done && !want_crash) { Op *o = &ops[opnext++]; if (o->fired) continue; o->fired = 1; exec_op(o); } if ((steps & 1023) == 0) age_journal(); }

/* ================================================================ loading the programs */
struct segq { Prog *g; const char *base; };
static int phdr_cb(struct dl_phdr_info *in, size_t sz, void *arg)
{
    Prog *g = arg; struct link_map *lm; dlinfo(g->dl, RTLD_DI_LINKMAP, &lm); if (in->dlpi_addr != lm->l_addr || strcmp(in->dlpi_name, lm->l_name)) return 0;
    uintptr_t rs = 0, re = 0; for (int i = 0; i < in->dlpi_phnum; i++) if (in->dlpi_phdr[i].p_type == PT_GNU_RELRO) { rs = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr; re = rs + in->dlpi_phdr[i].p_memsz; re = re & ~4095UL; }
    for (int i = 0; i < in->dlpi_phnum; i++) { const ElfW(Phdr) *h = &in->dlpi_phdr[i]; if (h->p_type != PT_LOAD || !(h->p_flags & PF_W)) continue; uintptr_t s = in->dlpi_addr + h->p_vaddr, e = s + h->p_memsz; if (re > s && rs <= s + 4096) s = re > s ? re : s; if (s >= e) continue; g->seg[g->nseg].a = (char *)s; g->seg[g->nseg].n = e - s; g->nseg++; }
    return 1;
}
static void load_prog(const char *dir, const char *name)
{
    Prog *g = &progs[nprogs]; char p[512]; snprintf(g->name, sizeof g->name, "%s", name); snprintf(p, sizeof p, "%s/%s.so", dir, name);
    g->dl = dlopen(p, RTLD_NOW | RTLD_LOCAL); if (!g->dl) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
    g->start = dlsym(g->dl, "p_start"); g->arena = dlsym(g->dl, "p_arena"); g->arena_end = dlsym(g->dl, "p_arena_end"); g->brk = dlsym(g->dl, "p_brk"); g->live_bytes = dlsym(g->dl, "p_live_bytes"); g->live_blocks = dlsym(g->dl, "p_live_blocks");
    if (!g->start || !g->brk) { fprintf(stderr, "bad program %s\n", name); _exit(3); }
    dl_iterate_phdr(phdr_cb, g);
    for (int i = 0; i < g->nseg; i++) { g->seg[i].pristine = malloc(g->seg[i].n); memcpy(g->seg[i].pristine, g->seg[i].a, g->seg[i].n); }
    char *base = (char *)(0x200000000000UL + nprogs * 0x100000000UL);
    g->heap = mmap(base, 32 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); g->heap_end = g->heap + (32 << 20);
    g->stk = mmap(base + (64 << 20), 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0); g->stk_top = g->stk + (1 << 20);
    nprogs++;
}
static int segv_sig; static void *segv_addr;
static long segv_ip;                 /* within the program, 0: in the C library */
static void segv_in_proc(void)
{
    ev_begin("segv"); ev_proc(cur); ev_i("sig", segv_sig); ev_i("ip", segv_ip); ev_end(); terminate(cur, segv_sig); die("segv");
}
static void segv(int s, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = uc_; if (!cur || !cur->prog) { fprintf(stderr, "simulator crashed (signal %d) at %p\n", s, (void *)uc->uc_mcontext.gregs[REG_RIP]); _exit(3); }
    { struct link_map *lm; dlinfo(cur->prog->dl, RTLD_DI_LINKMAP, &lm); segv_ip = (long)((char *)uc->uc_mcontext.gregs[REG_RIP] - (char *)lm->l_addr); if (segv_ip < 0 || segv_ip > 1 << 26) segv_ip = 0; }
    segv_sig = s == SIGVTALRM ? SIGXCPU : s; segv_addr = si->si_addr;
    /* continue in segv_in_proc on a fresh part of the process's stack (or the top when it overflowed) */
    char *sp = (char *)uc->uc_mcontext.gregs[REG_RSP]; if (sp < cur->prog->stk + 65536 || sp > cur->prog->stk_top) sp = cur->prog->stk_top - 256;
    sp -= 256; uc->uc_mcontext.gregs[REG_RSP] = ((uintptr_t)sp & ~15UL) - 8; uc->uc_mcontext.gregs[REG_RIP] = (greg_t)segv_in_proc;
}
static void vtalrm(int s, siginfo_t *si, void *uc_)
{   /* a process computing for seconds of CPU time without any system call: endless loop */
    static long last; static int same; ucontext_t *uc = uc_; char *ip = (char *)uc->uc_mcontext.gregs[REG_RIP];
    if (steps != last || !cur || !cur->prog) { last = steps; same = 0; return; }
    if (++same < 3) return;
    struct link_map *lm; dlinfo(cur->prog->dl, RTLD_DI_LINKMAP, &lm);
    same = 0; segv(SIGVTALRM, si, uc_);
}
static void run_plan(char *plan, size_t n, const char *outpath, int outfd)
{
    tr = open_memstream(&trbuf, &trlen);
    rootino = mkino(S_IFDIR, 0755, 0, 0, 0); rootino->nlink = 2;
    for (char *l = plan; l && *l;) { char *e = strchr(l, '\n'); if (e) *e = 0; char *ln = strdup(l); plan_line(ln); free(ln); l = e ? e + 1 : NULL; }
    kmk("/tmp", S_IFDIR, 01777, 0, 0, NULL, 0, 1); kmk("/var", S_IFDIR, 0755, 0, 0, NULL, 0, 0); kmk("/var/run", S_IFDIR, 0755, 0, 0, NULL, 0, 1); kmk("/run", S_IFDIR, 0755, 0, 0, NULL, 0, 1);
    kmk("/dev/null", S_IFCHR, 0666, 0, 0, NULL, 0, 2); kmk("/dev/tty", S_IFCHR, 0666, 0, 0, NULL, 0, 2);
    qsort(ops, nops, sizeof *ops, cmpop);
    while (opnext < nops && ops[opnext].t < 0) { ops[opnext].fired = 1; exec_op(&ops[opnext++]); }
    k_sync();
    stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 }; sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    signal(SIGALRM, SIG_DFL); alarm(120);
    sa.sa_sigaction = vtalrm; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, NULL); struct itimerval itv = { { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &itv, NULL);
    scheduler();
    cur = NULL;
    for (int i = 0; i < nprocs; i++) if (procs[i].state != ST_FREE) { Proc *p = &procs[i]; ev_begin("left"); ev_proc(p); ev_i("ppid", p->ppid); ev_i("state", p->state); ev_i("wk", p->wk); ev_i("job", p->job); ev_i("tag", p->tag); if (p->cout) { ev_sn("out", p->cout->b ? p->cout->b : "", p->cout->len); ev_sn("err", p->cerr->b ? p->cerr->b : "", p->cerr->len); } ev_end(); }
    ev_begin("end"); ev_s("why", endwhy); ev_i("steps", steps); ev_i("switches", stat_switch); ev_i("preempts", stat_preempt); ev_i("stalls", stat_stall);
    fprintf(tr, ",\"hash\":\"%016lx\",\"sys\":{", (unsigned long)thash); int c = 0; for (int i = 0; i < S_MAX; i++) if (syscount[i]) fprintf(tr, "%s\"%s\":%lu", c++ ? "," : "", sysn[i], (unsigned long)syscount[i]); fputs("}", tr); ev_end();
    fflush(tr);
    u64 len = trlen; if (outfd >= 0) { if (write(outfd, &len, 8) != 8) _exit(4); size_t off = 0; while (off < trlen) { ssize_t w = write(outfd, trbuf + off, trlen - off); if (w <= 0) _exit(4); off += w; } }
    else fwrite(trbuf, 1, trlen, stdout);
    fflush(stdout); _exit(0);
}
static int readn(int fd, void *b, size_t n) { size_t o = 0; while (o < n) { ssize_t r = read(fd, (char *)b + o, n - o); if (r <= 0) return -1; o += r; } return 0; }
int main(int argc, char **argv)
{
    if (!getenv("SIM_NORAND")) { setenv("SIM_NORAND", "1", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv); }
    /* the guard of the stack frames: repeatable, and without the zero byte which would hide a string terminated one byte too far */
    __asm__ volatile("movq %0, %%fs:0x28" :: "r"(0xc3a5965a3cf0e17bUL));
    const char *dir = argv[1]; load_prog(dir, "fcron"); load_prog(dir, "fcrontab"); load_prog(dir, "fcrondyn"); load_prog(dir, "fcronsighup");
    if (argc > 2) { FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 3; } char *b = NULL; size_t c = 0; ssize_t r = getdelim(&b, &c, 0, f); if (r < 0) return 3; run_plan(b, r, NULL, -1); }
    /* server: length-prefixed plans on stdin, length-prefixed traces on stdout */
    for (;;) {
        u64 n; if (readn(0, &n, 8)) exit(0); char *b = malloc(n + 1); if (readn(0, b, n)) exit(0); b[n] = 0;
        pid_t p = fork(); if (p == 0) { int out = dup(1); dup2(2, 1); run_plan(b, n, NULL, out); }
        int st; waitpid(p, &st, 0); free(b);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { char m[200]; int l = snprintf(m, sizeof m, "{\"e\":\"simfail\",\"st\":%d}\n", st); n = l; if (write(1, &n, 8) != 8 || write(1, m, l) != l) exit(0); }
    }
}
