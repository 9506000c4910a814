/* The C library of the simulated processes.  One copy is linked into every simulated program,
 * so that its state (stdio buffers, heap, environment, getopt, errno ...) belongs to the
 * process image and is duplicated by fork() and discarded by exec(), as on a real system.
 * Every function p_X replaces the libc function X in the fcron objects. */
#include "kern.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdbool.h>
#include <limits.h>
#include <ctype.h>
#include <pwd.h>
#include <grp.h>
#include <shadow.h>
#include <dirent.h>
#include <getopt.h>
#include <termios.h>
#include <sys/resource.h>
#include <security/pam_appl.h>

#define HID __attribute__((visibility("default")))
typedef struct PFILE {
    int used, fd, flags;          /* flags: 1 read, 2 write, 4 append */
    int eof, err, lbuf, nbuf, unget;
    char rb[1024]; int rpos, rlen;
    char wb[4096]; int wlen;
} PFILE;
#define NFILES 48
#define FMAGIC 0x46494c45
static PFILE *files[NFILES];
HID PFILE *p_stdin, *p_stdout, *p_stderr;
static int p_errno;
HID char **p_environ;
static int env_own;                 /* p_environ malloc'ed by us */

HID int *p___errno_location(void) { return &p_errno; }
#define RET(x) do { long r_ = (x); if (r_ < 0) { p_errno = -r_; return -1; } return r_; } while (0)

/* ---------------------------------------------------------------- heap */
HID char *p_arena, *p_arena_end, *p_brk;   /* set / saved by the kernel */
#define HMAGIC 0x5ca1ab1e
#define RZ 16
typedef struct Hdr { uint32_t magic, sz; struct Hdr *next; uint32_t req, freed; uint64_t pad; } Hdr;
#define NCLS 64
static Hdr *freel[NCLS];
static Hdr *quar_head, *quar_tail; static int quar_n;
HID long p_live_bytes, p_live_blocks;
static uint32_t cls_size(int c) { /* 32,64,96..1024 then powers */
    if (c < 32) return 32 * (c + 1);
    return 1024u << (c - 31);
}
static int cls_of(size_t n) { int c; for (c = 0; c < NCLS; c++) if (cls_size(c) >= n) return c; return -1; }
static int booting;                /* building argv, environ and stdio: no allocation faults */
static void heap_die(const char *what) { k_note("HEAP", what); k_abort(SIGABRT); }
HID void *p_malloc(size_t n)
{
    if (n > (size_t)1 << 24 || (!booting && k_mem_fault(n))) { p_errno = ENOMEM; return NULL; }
    int c = cls_of(n + RZ);
    Hdr *h = c >= 0 ? freel[c] : NULL;
    if (c < 0) { p_errno = ENOMEM; return NULL; }
    if (h) freel[c] = h->next;
    else {
        size_t tot = sizeof(Hdr) + cls_size(c);
        if (p_brk + tot > p_arena_end) { p_errno = ENOMEM; k_note("HEAP", "arena exhausted"); return NULL; }
        h = (Hdr *)p_brk; p_brk += tot;
        h->sz = cls_size(c);
    }
    h->magic = HMAGIC; h->req = n; h->freed = 0; h->next = NULL;
    memset(h + 1, 0xA5, n);
    memset((char *)(h + 1) + n, 0xC3, h->sz - n);
    p_live_bytes += n; p_live_blocks++;
    return h + 1;
}
static Hdr *hdr_check(void *p, const char *op)
{
    Hdr *h = (Hdr *)p - 1;
    if ((char *)p < p_arena || (char *)p >= p_brk || h->magic != HMAGIC) heap_die(op);
    if (h->freed) heap_die("double free or use after free");
    unsigned char *q = (unsigned char *)p + h->req, *e = (unsigned char *)p + h->sz;
    if (e > q + 64) e = q + 64;
    for (; q < e; q++) if (*q != 0xC3) heap_die("heap buffer overflow");
    return h;
}
HID void p_free(void *p)
{
    if (!p) return;
    Hdr *h = hdr_check(p, "free of a bad pointer");
    p_live_bytes -= h->req; p_live_blocks--;
    h->freed = 1;
    memset(p, 0xDE, h->sz);
    h->next = NULL;
    if (quar_tail) quar_tail->next = h; else quar_head = h;
    quar_tail = h; quar_n++;
    if (quar_n > 48) {
        Hdr *o = quar_head; quar_head = o->next; quar_n--;
        unsigned char *q = (unsigned char *)(o + 1);
        for (uint32_t i = 0; i < o->sz; i++) if (q[i] != 0xDE) heap_die("write after free");
        int c = cls_of(o->sz);
        o->next = freel[c]; freel[c] = o;
    }
}
HID void *p_calloc(size_t a, size_t b)
{
    if (b && a > ((size_t)1 << 28) / b) { p_errno = ENOMEM; return NULL; }
    void *p = p_malloc(a * b); if (p) memset(p, 0, a * b); return p;
}
HID void *p_realloc(void *o, size_t n)
{
    if (!o) return p_malloc(n);
    Hdr *h = hdr_check(o, "realloc of a bad pointer");
    if (n == 0) { p_free(o); return NULL; }
    void *p = p_malloc(n);
    if (!p) return NULL;
    memcpy(p, o, h->req < n ? h->req : n);
    p_free(o);
    return p;
}
HID void *p_reallocarray(void *o, size_t a, size_t b) { return p_realloc(o, a * b); }
HID char *p_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = p_malloc(n); if (p) memcpy(p, s, n); return p; }
HID char *p___strdup(const char *s) { return p_strdup(s); }
HID char *p_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = p_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

/* ---------------------------------------------------------------- environment */
static int env_find(const char *n, size_t l) { for (int i = 0; p_environ && p_environ[i]; i++) if (!strncmp(p_environ[i], n, l) && p_environ[i][l] == '=') return i; return -1; }
HID char *p_getenv(const char *n) { int i = env_find(n, strlen(n)); return i < 0 ? NULL : strchr(p_environ[i], '=') + 1; }
HID char *p_secure_getenv(const char *n) { return p_getenv(n); }
static void env_grow(void)
{
    int n = 0; while (p_environ && p_environ[n]) n++;
    char **e = p_malloc(sizeof(char *) * (n + 2));
    if (!e) k_abort(SIGABRT);
    if (p_environ) memcpy(e, p_environ, n * sizeof(char *));
    e[n] = e[n + 1] = NULL;
    if (env_own) p_free(p_environ);
    p_environ = e; env_own = 1;
}
HID int p_putenv(char *s)
{
    char *q = strchr(s, '=');
    if (!q) { int i = env_find(s, strlen(s)); if (i >= 0) for (; p_environ[i]; i++) p_environ[i] = p_environ[i + 1]; return 0; }
    int i = env_find(s, q - s);
    if (i >= 0) { if (!env_own) env_grow(); p_environ[i] = s; return 0; }
    env_grow(); i = 0; while (p_environ[i]) i++; p_environ[i] = s;
    return 0;
}
HID int p_setenv(const char *n, const char *v, int ow)
{
    if (!n || !*n || strchr(n, '=')) { p_errno = EINVAL; return -1; }
    if (env_find(n, strlen(n)) >= 0 && !ow) return 0;
    /* (as glibc: a string once set is kept, and used again for the same value) */
    static struct kv { struct kv *next; char s[]; } *known; size_t ln = strlen(n);
    for (struct kv *k = known; k; k = k->next) if (!strncmp(k->s, n, ln) && k->s[ln] == '=' && !strcmp(k->s + ln + 1, v)) return p_putenv(k->s);
    struct kv *k = p_malloc(sizeof *k + ln + strlen(v) + 2); if (!k) { p_errno = ENOMEM; return -1; }
    strcpy(k->s, n); strcat(k->s, "="); strcat(k->s, v); k->next = known; known = k;
    return p_putenv(k->s);
}
HID int p_unsetenv(const char *n) { int i; while ((i = env_find(n, strlen(n))) >= 0) { if (!env_own) env_grow(); for (; p_environ[i]; i++) p_environ[i] = p_environ[i + 1]; } return 0; }
HID int p_clearenv(void) { p_environ = NULL; env_own = 0; return 0; }

/* ---------------------------------------------------------------- stdio */
static PFILE *fnew(int fd, int flags)
{
    for (int i = 0; i < NFILES; i++) if (!files[i]) {
        PFILE *f = p_malloc(sizeof(PFILE));
        if (!f) return NULL;
        memset(f, 0, sizeof(PFILE));
        f->used = FMAGIC; f->fd = fd; f->flags = flags; f->unget = -1;
        return files[i] = f;
    }
    p_errno = EMFILE; return NULL;
}
static int fmode(const char *m, int *fl)
{
    int plus = strchr(m, '+') != NULL, o = 0;
    if (m[0] == 'r') { *fl = 1 | (plus ? 2 : 0); o = plus ? O_RDWR : O_RDONLY; }
    else if (m[0] == 'w') { *fl = 2 | (plus ? 1 : 0); o = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; }
    else { *fl = 6 | (plus ? 1 : 0); o = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; }
    if (strchr(m, 'e')) o |= O_CLOEXEC;
    if (strchr(m, 'x')) o |= O_EXCL;
    return o;
}
static int rawflush(PFILE *f)
{
    int pos = 0, rc = 0;
    while (pos < f->wlen) {
        long r = k_write(f->fd, f->wb + pos, f->wlen - pos);
        if (r < 0) { p_errno = -r; f->err = 1; rc = -1; break; }
        pos += r;
    }
    f->wlen = 0;   /* glibc keeps the data on error; dropping it avoids endless retries */
    return rc;
}
static void dropread(PFILE *f)
{
    if (f->rlen > f->rpos) k_lseek(f->fd, -(long)(f->rlen - f->rpos), SEEK_CUR);
    f->rpos = f->rlen = 0; f->unget = -1;
}
HID PFILE *p_fopen(const char *p, const char *m) { int fl, o = fmode(m, &fl); int fd = k_open(p, o, 0666); if (fd < 0) { p_errno = -fd; return NULL; } return fnew(fd, fl); }
HID PFILE *p_fopen64(const char *p, const char *m) { return p_fopen(p, m); }
HID PFILE *p_fdopen(int fd, const char *m) { int fl; fmode(m, &fl); struct stat st; int r = k_fstat(fd, &st); if (r < 0) { p_errno = -r; return NULL; } return fnew(fd, fl); }
HID int p_fflush(PFILE *f) { if (!f) { int r = 0; for (int i = 0; i < NFILES; i++) if (files[i] && files[i]->wlen) r |= rawflush(files[i]); return r; } int r = 0; if (f->wlen) r = rawflush(f); else dropread(f); return r; }
HID int p_fclose(PFILE *f)
{
    if (!f || f->used != FMAGIC) heap_die("fclose of a closed stream");
    int r = f->wlen ? rawflush(f) : (dropread(f), 0);
    int c = k_close(f->fd); if (c < 0) { p_errno = -c; r = -1; }
    f->used = 0;
    for (int i = 0; i < NFILES; i++) if (files[i] == f) files[i] = NULL;
    p_free(f);
    return r;
}
HID PFILE *p_freopen(const char *p, const char *m, PFILE *f)
{
    int fl, o = fmode(m, &fl), old = f->fd;
    if (f->wlen) rawflush(f);
    int fd = k_open(p, o, 0666);
    if (fd < 0) { p_errno = -fd; k_close(old); return NULL; }
    if (fd != old) { k_dup2(fd, old); k_close(fd); }
    memset(f, 0, sizeof *f); f->used = FMAGIC; f->fd = old; f->flags = fl; f->unget = -1;
    if (f == p_stderr) f->nbuf = 1;
    return f;
}
HID int p_fileno(PFILE *f) { return f->fd; }
HID int p_feof(PFILE *f) { return f->eof; }
HID int p_ferror(PFILE *f) { return f->err; }
HID void p_clearerr(PFILE *f) { f->eof = f->err = 0; }
HID int p_fgetc(PFILE *f)
{
    if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; }
    if (f->rpos >= f->rlen) {
        if (f->wlen) rawflush(f);
        if (f->eof) return EOF;
        long r = k_read(f->fd, f->rb, sizeof f->rb);
        if (r < 0) { p_errno = -r; f->err = 1; return EOF; }
        if (r == 0) { f->eof = 1; return EOF; }
        f->rpos = 0; f->rlen = r;
    }
    return (unsigned char)f->rb[f->rpos++];
}
HID int p_getc(PFILE *f) { return p_fgetc(f); }
HID int p_getc_unlocked(PFILE *f) { return p_fgetc(f); }
HID int p__IO_getc(PFILE *f) { return p_fgetc(f); }
HID int p_getchar(void) { return p_fgetc(p_stdin); }
HID int p_ungetc(int c, PFILE *f) { f->unget = c; f->eof = 0; return c; }
HID char *p_fgets(char *b, int n, PFILE *f)
{
    int i = 0, c = 0;
    while (i < n - 1 && (c = p_fgetc(f)) != EOF) { b[i++] = c; if (c == '\n') break; }
    if (i == 0) return NULL;
    if (c == EOF && f->err && i == 0) return NULL;
    b[i] = 0; return b;
}
HID size_t p_fread(void *b, size_t s, size_t n, PFILE *f) { size_t t = s * n, i; char *q = b; for (i = 0; i < t; i++) { int c = p_fgetc(f); if (c == EOF) break; q[i] = c; } return s ? i / s : 0; }
static long fput(PFILE *f, const char *b, size_t n)
{
    dropread(f);
    if (!(f->flags & 2)) { p_errno = EBADF; f->err = 1; return -1; }
    int bad = 0;
    for (size_t i = 0; i < n; i++) {
        f->wb[f->wlen++] = b[i];
        if (f->wlen == sizeof f->wb || (f->lbuf && b[i] == '\n')) if (rawflush(f)) bad = 1;
    }
    if (f->nbuf && f->wlen && rawflush(f)) bad = 1;
    return bad ? -1 : (long)n;
}
HID size_t p_fwrite(const void *b, size_t s, size_t n, PFILE *f) { long r = fput(f, b, s * n); return r < 0 ? 0 : n; }
HID int p_fputs(const char *s, PFILE *f) { return fput(f, s, strlen(s)) < 0 ? EOF : 1; }
HID int p_fputc(int c, PFILE *f) { char x = c; return fput(f, &x, 1) < 0 ? EOF : (unsigned char)c; }
HID int p_putc(int c, PFILE *f) { return p_fputc(c, f); }
HID int p__IO_putc(int c, PFILE *f) { return p_fputc(c, f); }
HID int p_putchar(int c) { return p_fputc(c, p_stdout); }
HID int p_puts(const char *s) { return p_fputs(s, p_stdout) < 0 || p_fputc('\n', p_stdout) < 0 ? EOF : 1; }
HID int p_vfprintf(PFILE *f, const char *fmt, va_list ap)
{
    char sb[512], *b = sb; va_list c; va_copy(c, ap);
    int n = vsnprintf(sb, sizeof sb, fmt, c); va_end(c);
    if (n < 0) return n;
    if (n >= (int)sizeof sb) { b = p_malloc(n + 1); if (!b) return -1; vsnprintf(b, n + 1, fmt, ap); }
    long r = fput(f, b, n);
    if (b != sb) p_free(b);
    return r < 0 ? -1 : n;
}
HID int p_fprintf(PFILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = p_vfprintf(f, fmt, a); va_end(a); return r; }
HID int p_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); int r = p_vfprintf(p_stdout, fmt, a); va_end(a); return r; }
HID int p_vprintf(const char *fmt, va_list a) { return p_vfprintf(p_stdout, fmt, a); }
HID int p_dprintf(int fd, const char *fmt, ...) { char b[2048]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); long r = k_write(fd, b, n); if (r < 0) { p_errno = -r; return -1; } return r; }
HID int p_asprintf(char **o, const char *fmt, ...) { va_list a, c; va_start(a, fmt); va_copy(c, a); int n = vsnprintf(NULL, 0, fmt, c); va_end(c); *o = p_malloc(n + 1); if (!*o) { va_end(a); return -1; } vsnprintf(*o, n + 1, fmt, a); va_end(a); return n; }
HID int p_vasprintf(char **o, const char *fmt, va_list a) { va_list c; va_copy(c, a); int n = vsnprintf(NULL, 0, fmt, c); va_end(c); *o = p_malloc(n + 1); if (!*o) return -1; vsnprintf(*o, n + 1, fmt, a); return n; }
static int vfscan(PFILE *f, const char *fmt, va_list ap)
{
    char b[256]; int i = 0, c;
    while ((c = p_fgetc(f)) != EOF && isspace(c));
    if (c == EOF) return EOF;
    do b[i++] = c; while (i < 255 && (c = p_fgetc(f)) != EOF && c != '\n');
    b[i] = 0;
    return vsscanf(b, fmt, ap);
}
HID int p___isoc99_fscanf(PFILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfscan(f, fmt, a); va_end(a); return r; }
HID int p___isoc23_fscanf(PFILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfscan(f, fmt, a); va_end(a); return r; }
HID int p_fscanf(PFILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = vfscan(f, fmt, a); va_end(a); return r; }
HID int p_fseek(PFILE *f, long o, int w) { if (f->wlen && rawflush(f)) return -1; if (w == SEEK_CUR) dropread(f); f->rpos = f->rlen = 0; f->unget = -1; f->eof = 0; RET(k_lseek(f->fd, o, w) < 0 ? -ESPIPE : 0); }
HID int p_fseeko(PFILE *f, long o, int w) { return p_fseek(f, o, w); }
HID long p_ftell(PFILE *f) { long r = k_lseek(f->fd, 0, SEEK_CUR); if (r < 0) { p_errno = -r; return -1; } return r + f->wlen - (f->rlen - f->rpos); }
HID long p_ftello(PFILE *f) { return p_ftell(f); }
HID void p_rewind(PFILE *f) { p_fseek(f, 0, SEEK_SET); f->err = 0; }
HID void p_setlinebuf(PFILE *f) { f->lbuf = 1; f->nbuf = 0; }
HID int p_setvbuf(PFILE *f, char *b, int mode, size_t n) { f->lbuf = mode == _IOLBF; f->nbuf = mode == _IONBF; return 0; }
HID void p_setbuf(PFILE *f, char *b) { if (!b) f->nbuf = 1; }
HID long p_getline(char **l, size_t *n, PFILE *f)
{
    size_t i = 0; int c;
    while ((c = p_fgetc(f)) != EOF) {
        if (!*l || i + 2 > *n) { *n = *n ? *n * 2 + 16 : 128; *l = p_realloc(*l, *n); if (!*l) return -1; }
        (*l)[i++] = c; if (c == '\n') break;
    }
    if (!i) return -1;
    (*l)[i] = 0; return i;
}
HID int p_remove(const char *p) { int r = k_unlink(p); if (r == -EISDIR) r = k_rmdir(p); RET(r); }
HID int p_rename(const char *a, const char *b) { RET(k_rename(a, b)); }
HID void p_perror(const char *s) { p_fprintf(p_stderr, "%s: %s\n", s, strerror(p_errno)); }

/* ---------------------------------------------------------------- files */
HID int p_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); RET(k_open(p, fl, m)); }
HID int p_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); RET(k_open(p, fl, m)); }
HID int p___open_2(const char *p, int fl) { RET(k_open(p, fl, 0)); }
HID int p_openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); RET(k_open(p, fl, m)); }
HID int p_creat(const char *p, mode_t m) { RET(k_open(p, O_CREAT | O_WRONLY | O_TRUNC, m)); }
HID int p_close(int fd) { RET(k_close(fd)); }
HID ssize_t p_read(int fd, void *b, size_t n) { RET(k_read(fd, b, n)); }
HID ssize_t p_write(int fd, const void *b, size_t n) { RET(k_write(fd, b, n)); }
HID ssize_t p_pread(int fd, void *b, size_t n, off_t o) { long s = k_lseek(fd, 0, SEEK_CUR); k_lseek(fd, o, SEEK_SET); long r = k_read(fd, b, n); k_lseek(fd, s, SEEK_SET); RET(r); }
HID off_t p_lseek(int fd, off_t o, int w) { RET(k_lseek(fd, o, w)); }
HID int p_fstat(int fd, struct stat *s) { RET(k_fstat(fd, s)); }
HID int p_fstat64(int fd, struct stat *s) { RET(k_fstat(fd, s)); }
HID int p_stat(const char *p, struct stat *s) { RET(k_stat(p, s, 1)); }
HID int p_stat64(const char *p, struct stat *s) { RET(k_stat(p, s, 1)); }
HID int p_lstat(const char *p, struct stat *s) { RET(k_stat(p, s, 0)); }
HID int p_access(const char *p, int m) { RET(k_access(p, m, 0)); }
HID int p_eaccess(const char *p, int m) { RET(k_access(p, m, 1)); }
HID int p_euidaccess(const char *p, int m) { RET(k_access(p, m, 1)); }
HID int p_unlink(const char *p) { RET(k_unlink(p)); }
HID int p_rmdir(const char *p) { RET(k_rmdir(p)); }
HID int p_link(const char *a, const char *b) { RET(k_link(a, b)); }
HID int p_symlink(const char *a, const char *b) { RET(k_symlink(a, b)); }
HID ssize_t p_readlink(const char *a, char *b, size_t n) { RET(k_readlink(a, b, n)); }
HID int p_mkdir(const char *p, mode_t m) { RET(k_mkdir(p, m)); }
HID int p_chmod(const char *p, mode_t m) { RET(k_chmod(p, m)); }
HID int p_fchmod(int fd, mode_t m) { RET(k_fchmod(fd, m)); }
HID int p_chown(const char *p, uid_t u, gid_t g) { RET(k_chown(p, u, g)); }
HID int p_lchown(const char *p, uid_t u, gid_t g) { RET(k_chown(p, u, g)); }
HID int p_fchown(int fd, uid_t u, gid_t g) { RET(k_fchown(fd, u, g)); }
HID int p_fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); RET(k_fcntl(fd, c, x)); }
HID int p_fcntl64(int fd, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); RET(k_fcntl(fd, c, x)); }
HID int p_ftruncate(int fd, off_t n) { RET(k_ftruncate(fd, n)); }
HID int p_truncate(const char *p, off_t n) { int fd = k_open(p, O_WRONLY, 0); if (fd < 0) { p_errno = -fd; return -1; } int r = k_ftruncate(fd, n); k_close(fd); RET(r); }
HID int p_fsync(int fd) { RET(k_fsync(fd, 0)); }
HID int p_fdatasync(int fd) { RET(k_fsync(fd, 1)); }
HID void p_sync(void) { k_sync(); }
HID int p_flock(int fd, int o) { RET(k_flock(fd, o)); }
HID int p_lockf(int fd, int c, off_t l) { RET(k_flock(fd, c == 0 ? 8 : c == 1 ? 2 : 2 | 4)); }
HID int p_dup(int a) { RET(k_dup(a)); }
HID int p_dup2(int a, int b) { RET(k_dup2(a, b)); }
HID int p_pipe(int *f) { RET(k_pipe(f, 0)); }
HID int p_pipe2(int *f, int fl) { RET(k_pipe(f, fl)); }
HID int p_ioctl(int fd, unsigned long r, ...) { RET(k_ioctl(fd, r)); }
HID int p_isatty(int fd) { int r = k_isatty(fd); if (!r) p_errno = ENOTTY; return r; }
HID int p_tcgetattr(int fd, struct termios *t) { int r = k_tcecho(fd, 0, 0); if (r < 0) { p_errno = -r; return -1; } memset(t, 0, sizeof *t); t->c_lflag = ICANON | ISIG | (r ? ECHO : 0); return 0; }
HID int p_tcsetattr(int fd, int a, const struct termios *t) { int r = k_tcecho(fd, 1, !!(t->c_lflag & ECHO)); if (r < 0) { p_errno = -r; return -1; } return 0; }
HID int p_chdir(const char *p) { RET(k_chdir(p)); }
HID char *p_getcwd(char *b, size_t n) { if (!b) { n = n ? n : 512; b = p_malloc(n); if (!b) return NULL; } int r = k_getcwd(b, n); if (r < 0) { p_errno = -r; return NULL; } return b; }
HID mode_t p_umask(mode_t m) { return k_umask(m); }
HID int p_mkstemp(char *t)
{
    size_t l = strlen(t);
    static const char cs[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    if (l < 6 || strcmp(t + l - 6, "XXXXXX")) { p_errno = EINVAL; return -1; }
    for (int k = 0; k < 100; k++) {
        u64 s = k_random_seed();
        for (int i = 0; i < 6; i++) { t[l - 6 + i] = cs[s % 36]; s /= 36; }
        int fd = k_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0) return fd;
        if (fd != -EEXIST) { p_errno = -fd; return -1; }
    }
    p_errno = EEXIST; return -1;
}
HID int p_mkstemp64(char *t) { return p_mkstemp(t); }
HID int p_mkostemp(char *t, int f) { return p_mkstemp(t); }

typedef struct PDIR { int fd, n, i, err; struct dirent *e; int filled; } PDIR;
HID PDIR *p_opendir(const char *p) { int fd = k_open(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0); if (fd < 0) { p_errno = -fd; return NULL; } PDIR *d = p_calloc(1, sizeof *d); if (!d) { k_close(fd); p_errno = ENOMEM; return NULL; } d->fd = fd; return d; }
HID struct dirent *p_readdir(PDIR *d)
{
    if (!d->filled) {
        d->filled = 1;
        int cap = 0;
        for (int i = 0;; i++) {
            if (d->n == cap) { cap = cap ? cap * 2 : 16; d->e = p_realloc(d->e, cap * sizeof(struct dirent)); if (!d->e) return NULL; }
            u64 ino; int ty;
            int r = k_getdents(d->fd, i, d->e[d->n].d_name, &ino, &ty);
            if (r <= 0) { d->err = -r; break; }
            d->e[d->n].d_ino = ino; d->e[d->n].d_type = ty; d->n++;
        }
    }
    if (d->i < d->n) return &d->e[d->i++];
    if (d->err) p_errno = d->err;
    return NULL;
}
HID struct dirent *p_readdir64(PDIR *d) { return p_readdir(d); }
HID void p_rewinddir(PDIR *d) { d->filled = 0; d->n = d->i = 0; p_free(d->e); d->e = NULL; }
HID int p_dirfd(PDIR *d) { return d->fd; }
HID int p_closedir(PDIR *d) { int r = k_close(d->fd); p_free(d->e); p_free(d); RET(r); }

/* ---------------------------------------------------------------- processes */
HID pid_t p_fork(void) { RET(k_fork()); }
HID pid_t p_vfork(void) { RET(k_fork()); }
static void doexit(int c) { p_fflush(NULL); for (int i = 0; i < NFILES; i++) if (files[i] && files[i]->rlen > files[i]->rpos) dropread(files[i]); k_exit(c); }
static void (*atex[16])(void); static int natex;
HID int p_atexit(void (*f)(void)) { if (natex < 16) atex[natex++] = f; return 0; }
HID void p_exit(int c) { while (natex > 0) atex[--natex](); doexit(c); __builtin_unreachable(); }
HID void p__exit(int c) { k_exit(c); }
HID void p__Exit(int c) { k_exit(c); }
HID void p_abort(void) { k_abort(SIGABRT); }
HID void p___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { k_note("ASSERT", e); k_abort(SIGABRT); }
HID void p___stack_chk_fail(void) { k_note("STACK", "stack smashing detected"); k_abort(SIGABRT); }
HID int p_raise(int s) { RET(k_kill(k_getpid(), s)); }
HID int p_execve(const char *p, char *const a[], char *const e[]) { RET(k_execve(p, a, e)); }
HID int p_execv(const char *p, char *const a[]) { RET(k_execve(p, a, p_environ)); }
static int pathexec(const char *f, char *const a[], char *const e[])
{
    if (strchr(f, '/')) RET(k_execve(f, a, e));
    const char *p = p_getenv("PATH"); if (!p) p = "/bin:/usr/bin";
    char b[512];
    while (*p) { size_t l = strcspn(p, ":"); snprintf(b, sizeof b, "%.*s/%s", (int)l, p, f); int r = k_execve(b, a, e); if (r != -ENOENT && r != -EACCES && r != -ENOTDIR) RET(r); p += l; if (*p) p++; }
    p_errno = ENOENT; return -1;
}
HID int p_execvp(const char *f, char *const a[]) { return pathexec(f, a, p_environ); }
#define COLLECT char *av[64]; int n = 0; va_list ap; av[n++] = (char *)a0; va_start(ap, a0); while (a0 && n < 63 && (av[n] = va_arg(ap, char *))) n++; av[n] = NULL
HID int p_execl(const char *p, const char *a0, ...) { COLLECT; va_end(ap); RET(k_execve(p, av, p_environ)); }
HID int p_execlp(const char *p, const char *a0, ...) { COLLECT; va_end(ap); return pathexec(p, av, p_environ); }
HID int p_execle(const char *p, const char *a0, ...) { COLLECT; char **e = va_arg(ap, char **); va_end(ap); RET(k_execve(p, av, e)); }
HID pid_t p_waitpid(pid_t p, int *s, int o) { RET(k_waitpid(p, s, o)); }
HID pid_t p_wait(int *s) { RET(k_waitpid(-1, s, 0)); }
HID pid_t p_wait3(int *s, int o, void *r) { RET(k_waitpid(-1, s, o)); }
HID pid_t p_wait4(pid_t p, int *s, int o, void *r) { RET(k_waitpid(p, s, o)); }
HID int p_kill(pid_t p, int s) { RET(k_kill(p, s)); }
HID int p_killpg(pid_t p, int s) { RET(k_kill(-p, s)); }
HID pid_t p_getpid(void) { return k_getpid(); }
HID pid_t p_getppid(void) { return k_getppid(); }
HID pid_t p_getpgrp(void) { return k_getpgrp(); }
HID pid_t p_getpgid(pid_t p) { return k_getpgrp(); }
HID uid_t p_getuid(void) { return k_getuid(); }
HID uid_t p_geteuid(void) { return k_geteuid(); }
HID gid_t p_getgid(void) { return k_getgid(); }
HID gid_t p_getegid(void) { return k_getegid(); }
HID int p_setuid(uid_t u) { RET(k_setuid(u)); }
HID int p_seteuid(uid_t u) { RET(k_seteuid(u)); }
HID int p_setgid(gid_t u) { RET(k_setgid(u)); }
HID int p_setegid(gid_t u) { RET(k_setegid(u)); }
HID int p_setreuid(uid_t r, uid_t e) { RET(k_setresuid(r, e, -1)); }
HID int p_setregid(gid_t r, gid_t e) { RET(k_setresgid(r, e, -1)); }
HID int p_setresuid(uid_t r, uid_t e, uid_t s) { RET(k_setresuid(r, e, s)); }
HID int p_setresgid(gid_t r, gid_t e, gid_t s) { RET(k_setresgid(r, e, s)); }
HID int p_setgroups(size_t n, const gid_t *g) { RET(k_setgroups(n, g)); }
HID int p_getgroups(int n, gid_t *g) { RET(k_getgroups(n, g)); }
HID int p_initgroups(const char *u, gid_t g)
{
    gid_t gs[32]; int n = 0; gs[n++] = g;
    for (int i = 0; i < sim_ngroups; i++) {
        const char *m = sim_groups[i].members; size_t l = strlen(u);
        while (m && *m) { if (!strncmp(m, u, l) && (m[l] == ',' || !m[l])) { if (sim_groups[i].gid != (int)g && n < 32) gs[n++] = sim_groups[i].gid; break; } m = strchr(m, ','); if (m) m++; }
    }
    RET(k_setgroups(n, gs));
}
HID int p_setpriority(int w, int who, int pr) { RET(k_setpriority(w, who, pr)); }
HID int p_getpriority(int w, int who) { int o; int r = k_getpriority(w, who, &o); if (r < 0) { p_errno = -r; return -1; } return o; }
HID int p_nice(int i) { int o; int r = k_nice(i, &o); if (r < 0) { p_errno = -r; return -1; } return o; }
HID pid_t p_setsid(void) { RET(k_setsid()); }
HID int p_setpgid(pid_t a, pid_t b) { RET(k_setpgid(a, b)); }
HID int p_daemon(int a, int b) { int r = k_fork(); if (r < 0) { p_errno = -r; return -1; } if (r) k_exit(0); k_setsid(); return 0; }

/* ---------------------------------------------------------------- signals, time */
HID int p_sigaction(int s, const struct sigaction *n, struct sigaction *o) { RET(k_sigaction(s, n, o)); }
HID int p___sigaction(int s, const struct sigaction *n, struct sigaction *o) { RET(k_sigaction(s, n, o)); }
HID void (*p_signal(int s, void (*h)(int)))(int)
{ struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART; int r = k_sigaction(s, &a, &o); if (r < 0) { p_errno = -r; return SIG_ERR; } return o.sa_handler; }
HID void (*p___sysv_signal(int s, void (*h)(int)))(int) { return p_signal(s, h); }
HID void (*p_bsd_signal(int s, void (*h)(int)))(int) { return p_signal(s, h); }
HID void (*p_sigset(int s, void (*h)(int)))(int) { return p_signal(s, h); }
HID int p_siginterrupt(int s, int f) { struct sigaction a; k_sigaction(s, NULL, &a); if (f) a.sa_flags &= ~SA_RESTART; else a.sa_flags |= SA_RESTART; RET(k_sigaction(s, &a, NULL)); }
HID int p_sigprocmask(int h, const sigset_t *n, sigset_t *o) { RET(k_sigprocmask(h, n, o)); }
HID int p_pthread_sigmask(int h, const sigset_t *n, sigset_t *o) { int r = k_sigprocmask(h, n, o); return r < 0 ? -r : 0; }
HID int p_sigsuspend(const sigset_t *m) { RET(k_sigsuspend(m)); }
HID int p_pause(void) { RET(k_sigsuspend(NULL)); }
HID unsigned p_alarm(unsigned s) { return k_alarm(s); }
HID unsigned p_sleep(unsigned s) { i64 rem = 0; int r = k_nanosleep((i64)s * 1000000, &rem); return r < 0 ? (rem + 999999) / 1000000 : 0; }
HID int p_usleep(useconds_t u) { RET(k_nanosleep(u, NULL)); }
HID int p_nanosleep(const struct timespec *t, struct timespec *rem) { i64 r; int x = k_nanosleep((i64)t->tv_sec * 1000000 + t->tv_nsec / 1000, &r); if (rem) { rem->tv_sec = r / 1000000; rem->tv_nsec = (r % 1000000) * 1000; } RET(x); }
HID int p_clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *rem) { i64 d = (i64)t->tv_sec * 1000000 + t->tv_nsec / 1000; if (f & TIMER_ABSTIME) { struct timespec n; k_gettime(c, &n); d -= (i64)n.tv_sec * 1000000 + n.tv_nsec / 1000; if (d < 0) d = 0; } int x = k_nanosleep(d, NULL); return x < 0 ? -x : 0; }
HID time_t p_time(time_t *t) { struct timespec s; k_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
HID int p_gettimeofday(struct timeval *tv, void *z) { struct timespec s; k_gettime(CLOCK_REALTIME, &s); tv->tv_sec = s.tv_sec; tv->tv_usec = s.tv_nsec / 1000; return 0; }
HID int p_clock_gettime(clockid_t c, struct timespec *t) { k_gettime(c, t); return 0; }
static struct tm tmbuf; static char ctbuf[64];
HID struct tm *p_localtime(const time_t *t) { return k_localtime(p_getenv("TZ"), t, &tmbuf) ? &tmbuf : NULL; }
HID struct tm *p_localtime_r(const time_t *t, struct tm *b) { return k_localtime(p_getenv("TZ"), t, b) ? b : NULL; }
HID struct tm *p_gmtime(const time_t *t) { gmtime_r(t, &tmbuf); return &tmbuf; }
HID time_t p_mktime(struct tm *t) { return k_mktime(p_getenv("TZ"), t); }
HID size_t p_strftime(char *b, size_t n, const char *f, const struct tm *t) { return k_strftime(p_getenv("TZ"), b, n, f, t); }
HID char *p_ctime(const time_t *t) { struct tm x; if (!k_localtime(p_getenv("TZ"), t, &x)) return NULL; asctime_r(&x, ctbuf); return ctbuf; }
HID char *p_asctime(const struct tm *t) { asctime_r(t, ctbuf); return ctbuf; }
HID void p_tzset(void) { }
HID int p_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { RET(k_select(n, r, w, e, tv, NULL)); }
HID int p_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *m) { struct timeval tv, *p = NULL; if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = ts->tv_nsec / 1000; p = &tv; } RET(k_select(n, r, w, e, p, m)); }
HID int p_poll(struct pollfd *p, nfds_t n, int t) { RET(k_poll(p, n, t)); }
HID int p_timerfd_create(int c, int f) { RET(k_timerfd_create(c, f)); }
HID int p_timerfd_settime(int fd, int f, const struct itimerspec *n, struct itimerspec *o) { RET(k_timerfd_settime(fd, f, n)); }

/* ---------------------------------------------------------------- sockets */
HID int p_socket(int d, int t, int p) { RET(k_socket(d, t, p)); }
HID int p_bind(int fd, const struct sockaddr *a, socklen_t l) { RET(k_bind(fd, a, l)); }
HID int p_listen(int fd, int n) { RET(k_listen(fd, n)); }
HID int p_accept(int fd, struct sockaddr *a, socklen_t *l) { RET(k_accept(fd, a, l, 0)); }
HID int p_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { RET(k_accept(fd, a, l, f)); }
HID int p_connect(int fd, const struct sockaddr *a, socklen_t l) { RET(k_connect(fd, a, l)); }
HID ssize_t p_send(int fd, const void *b, size_t n, int f) { RET(k_send(fd, b, n, f)); }
HID ssize_t p_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { RET(k_send(fd, b, n, f)); }
HID ssize_t p_recv(int fd, void *b, size_t n, int f) { RET(k_recv(fd, b, n, f)); }
HID ssize_t p_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { RET(k_recv(fd, b, n, f)); }
HID int p_shutdown(int fd, int h) { RET(k_shutdown(fd, h)); }
HID int p_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { RET(k_getsockopt(fd, l, o, v, n)); }
HID int p_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { RET(k_setsockopt(fd, l, o, v, n)); }

/* ---------------------------------------------------------------- databases */
static struct passwd pwb; static struct group grb; static struct spwd spb; static char *grmem[2];
static struct passwd *pwfill(int i) { pwb.pw_name = (char *)sim_users[i].name; pwb.pw_passwd = "x"; pwb.pw_uid = sim_users[i].uid; pwb.pw_gid = sim_users[i].gid; pwb.pw_gecos = ""; pwb.pw_dir = (char *)sim_users[i].dir; pwb.pw_shell = (char *)sim_users[i].shell; return &pwb; }
HID struct passwd *p_getpwnam(const char *n) { for (int i = 0; i < sim_nusers; i++) if (!strcmp(sim_users[i].name, n)) return pwfill(i); p_errno = 0; return NULL; }
HID struct passwd *p_getpwuid(uid_t u) { for (int i = 0; i < sim_nusers; i++) if (sim_users[i].uid == (int)u) return pwfill(i); p_errno = 0; return NULL; }
static struct group *grfill(int i) { grb.gr_name = (char *)sim_groups[i].name; grb.gr_passwd = "x"; grb.gr_gid = sim_groups[i].gid; grmem[0] = NULL; grb.gr_mem = grmem; return &grb; }
HID struct group *p_getgrnam(const char *n) { for (int i = 0; i < sim_ngroups; i++) if (!strcmp(sim_groups[i].name, n)) return grfill(i); return NULL; }
HID struct group *p_getgrgid(gid_t g) { for (int i = 0; i < sim_ngroups; i++) if (sim_groups[i].gid == (int)g) return grfill(i); return NULL; }
static char sphash[80], spcr[160];                     /* the password of user u is pw-u; that of system users is locked */
HID struct spwd *p_getspnam(const char *n) { struct passwd *w = p_getpwnam(n); memset(&spb, 0, sizeof spb); spb.sp_namp = (char *)n; spb.sp_pwdp = "*"; if (w && (w->pw_uid == 0 || w->pw_uid >= 1000)) { snprintf(sphash, sizeof sphash, "$6$saltsaltsalt$pw-%s", w->pw_name); spb.sp_pwdp = sphash; } return w ? &spb : NULL; }
HID void p_endpwent(void) { } HID void p_endgrent(void) { } HID void p_endspent(void) { }
HID char *p_crypt(const char *k, const char *s) { const char *e = strrchr(s, '$'); if (s[0] != '$' || e - s > 40) return "*0"; snprintf(spcr, sizeof spcr, "%.*s%s", (int)(e - s) + 1, s, k); return spcr; }
HID int p_gethostname(char *b, size_t n) { RET(k_gethostname(b, n)); }
HID int p_getloadavg(double *v, int n) { RET(k_loadavg(v, n)); }
HID char *p_setlocale(int c, const char *l) { return "C"; }
static unsigned long rnd = 1;
HID void p_srand(unsigned s) { rnd = s * 2862933555777941757UL + 3037000493UL; }
HID int p_rand(void) { rnd = rnd * 6364136223846793005UL + 1442695040888963407UL; return (rnd >> 33) & 0x7fffffff; }
HID void p_srandom(unsigned s) { p_srand(s); } HID long p_random(void) { return p_rand(); }
HID void p_openlog(const char *i, int o, int f) { k_openlog(); }
HID void p_closelog(void) { }
HID void p_vsyslog(int pr, const char *f, va_list a) { char b[2048]; vsnprintf(b, sizeof b, f, a); k_syslog(pr, b); }
HID void p_syslog(int pr, const char *f, ...) { va_list a; va_start(a, f); p_vsyslog(pr, f, a); va_end(a); }

static char *tokp;
HID char *p_strtok(char *s, const char *d) { return strtok_r(s, d, &tokp); }
#define NUMWRAP(T, N, H) HID T p_##N(const char *s, char **e, int b) { int sv = errno; errno = 0; T r = H(s, e, b); if (errno) p_errno = errno; errno = sv; return r; }
NUMWRAP(long, strtol, strtol) NUMWRAP(unsigned long, strtoul, strtoul) NUMWRAP(long long, strtoll, strtoll) NUMWRAP(unsigned long long, strtoull, strtoull)
NUMWRAP(long, __isoc23_strtol, strtol) NUMWRAP(unsigned long, __isoc23_strtoul, strtoul) NUMWRAP(long long, __isoc23_strtoll, strtoll) NUMWRAP(unsigned long long, __isoc23_strtoull, strtoull)
HID double p_strtod(const char *s, char **e) { int sv = errno; errno = 0; double r = strtod(s, e); if (errno) p_errno = errno; errno = sv; return r; }

/* ---------------------------------------------------------------- getopt (GNU permuting) */
HID char *p_optarg; HID int p_optind = 1, p_opterr = 1, p_optopt;
static int optpos;
static void permute(char *const *argv, int from, int to) { char **v = (char **)argv; char *t = v[from]; for (int i = from; i > to; i--) v[i] = v[i - 1]; v[to] = t; }
HID int p_getopt_long(int argc, char *const argv[], const char *os, const struct option *lo, int *li)
{
    p_optarg = NULL;
    if (p_optind == 0) { p_optind = 1; optpos = 0; }
    int skipped = p_optind;
    if (!optpos) {
        int i = p_optind;
        while (i < argc && (argv[i][0] != '-' || !argv[i][1])) i++;
        if (i >= argc) return -1;
        skipped = p_optind;
        if (i > p_optind) {             /* move the option in front of the operands */
            const char *a = argv[i]; int takes = 0;
            if (!strcmp(a, "--")) takes = 0;
            else if (a[1] == '-') { if (!strchr(a, '=')) for (int k = 0; lo && lo[k].name; k++) if (!strcmp(lo[k].name, a + 2) && lo[k].has_arg == 1) takes = 1; }
            else { for (const char *q = a + 1; *q; q++) { const char *o = strchr(os, *q); if (o && o[1] == ':') { takes = !q[1]; break; } } }
            permute(argv, i, skipped);
            if (takes && i + 1 < argc) permute(argv, i + 1, skipped + 1);
        }
        if (!strcmp(argv[p_optind], "--")) { p_optind++; return -1; }
    }
    char *a = argv[p_optind];
    if (!optpos && lo && a[0] == '-' && a[1] == '-') {
        char *nm = a + 2, *eq = strchr(nm, '='); size_t l = eq ? (size_t)(eq - nm) : strlen(nm);
        int best = -1, cnt = 0;
        for (int k = 0; lo[k].name; k++) if (!strncmp(lo[k].name, nm, l)) { cnt++; best = k; if (strlen(lo[k].name) == l) { cnt = 1; break; } }
        p_optind++;
        if (cnt != 1) { if (p_opterr) p_fprintf(p_stderr, "unrecognized option '%s'\n", a); p_optopt = 0; return '?'; }
        if (lo[best].has_arg) { if (eq) p_optarg = eq + 1; else if (lo[best].has_arg == 1) { if (p_optind < argc) p_optarg = argv[p_optind++]; else { if (p_opterr && os[0] != ':') p_fprintf(p_stderr, "option '%s' requires an argument\n", a); return os[0] == ':' ? ':' : '?'; } } }
        if (li) *li = best;
        if (lo[best].flag) { *lo[best].flag = lo[best].val; return 0; }
        return lo[best].val;
    }
    if (!optpos) optpos = 1;
    int c = (unsigned char)a[optpos++];
    const char *o = c == ':' ? NULL : strchr(os, c);
    int last = !a[optpos];
    if (!o) { p_optopt = c; if (p_opterr && os[0] != ':') p_fprintf(p_stderr, "invalid option -- '%c'\n", c); if (last) { p_optind++; optpos = 0; } return '?'; }
    if (o[1] == ':') {
        if (!last) { p_optarg = a + optpos; p_optind++; optpos = 0; }
        else { p_optind++; optpos = 0; if (o[2] != ':') { if (p_optind < argc) p_optarg = argv[p_optind++]; else { p_optopt = c; if (p_opterr && os[0] != ':') p_fprintf(p_stderr, "option requires an argument -- '%c'\n", c); return os[0] == ':' ? ':' : '?'; } } }
    }
    else if (last) { p_optind++; optpos = 0; }
    return c;
}
HID int p_getopt(int argc, char *const argv[], const char *os) { return p_getopt_long(argc, argv, os, NULL, NULL); }

/* ---------------------------------------------------------------- PAM, SELinux, audit, readline */
struct ph { char user[64]; const struct pam_conv *c; };
HID int p_pam_start(const char *svc, const char *user, const struct pam_conv *c, pam_handle_t **h) { struct ph *x = p_calloc(1, sizeof *x); if (!x) return PAM_BUF_ERR; snprintf(x->user, sizeof x->user, "%s", user); x->c = !strcmp(svc, "fcrontab") ? c : NULL; *h = (pam_handle_t *)x; return k_pam(0, user); }
HID int p_pam_authenticate(pam_handle_t *h, int f)
{   /* `pam user:9:mode` = the service asks for the password: 1 that only, 2 an echoed question first, 3 after an information, 4 after an error message, 5 in two conversations */
    struct ph *x = (struct ph *)h; int r = k_pam(1, x->user), mode = r || !x->c || !x->c->conv ? 0 : k_pamask(x->user); if (!mode) return r;
    struct pam_message m[3] = {{ mode == 2 ? PAM_PROMPT_ECHO_ON : mode == 3 ? PAM_TEXT_INFO : PAM_ERROR_MSG, mode == 2 ? "Login code: " : "Hello" }, { PAM_PROMPT_ECHO_OFF, "Password: " }};
    const struct pam_message *mp[2] = { &m[0], &m[1] }; struct pam_response *rs = NULL; int n = mode >= 2 && mode <= 4 ? 2 : 1, ok;
    r = x->c->conv(n, n == 2 ? mp : mp + 1, &rs, x->c->appdata_ptr); if (r != PAM_SUCCESS) return r; if (!rs) return PAM_CONV_ERR;
    char pw[80]; snprintf(pw, sizeof pw, "pw-%s", x->user); ok = rs[n - 1].resp && !strcmp(rs[n - 1].resp, pw) && (mode != 2 || rs[0].resp && !strcmp(rs[0].resp, "1234"));
    for (int i = 0; i < n; i++) p_free(rs[i].resp); p_free(rs);
    if (mode == 5 && ok) { rs = NULL; m[1].msg = "Again: "; r = x->c->conv(1, mp + 1, &rs, x->c->appdata_ptr); if (r != PAM_SUCCESS) return r; ok = rs && rs[0].resp && !strcmp(rs[0].resp, pw); if (rs) { p_free(rs[0].resp); p_free(rs); } }
    return ok ? 0 : PAM_AUTH_ERR;
}
HID int p_pam_acct_mgmt(pam_handle_t *h, int f) { return k_pam(2, ((struct ph *)h)->user); }
HID int p_pam_setcred(pam_handle_t *h, int f) { return k_pam((f & PAM_DELETE_CRED) ? 6 : 3, ((struct ph *)h)->user); }
HID int p_pam_open_session(pam_handle_t *h, int f) { return k_pam(4, ((struct ph *)h)->user); }
HID int p_pam_close_session(pam_handle_t *h, int f) { return k_pam(5, ((struct ph *)h)->user); }
HID int p_pam_end(pam_handle_t *h, int st) { p_free(h); return 0; }
HID const char *p_pam_strerror(pam_handle_t *h, int e) { return e ? "PAM error" : "Success"; }
HID char **p_pam_getenvlist(pam_handle_t *h) { return p_calloc(1, sizeof(char *)); }
HID int p_is_selinux_enabled(void) { return 0; }
HID int p_audit_open(void) { RET(k_open("/dev/null", O_RDWR, 0)); }
HID int p_audit_log_user_message(int fd, int t, const char *m, const char *h, const char *a, const char *tty, int r) { return 1; }
HID char *p_readline(const char *prompt) { p_fputs(prompt, p_stdout); p_fflush(p_stdout); char *l = NULL; size_t n = 0; long r = p_getline(&l, &n, p_stdin); if (r < 0) { p_free(l); return NULL; } if (r && l[r - 1] == '\n') l[r - 1] = 0; return l; }
HID void p_add_history(const char *l) { }
HID char **p_rl_completion_matches(const char *t, void *f) { return NULL; }
HID void *p_rl_attempted_completion_function; HID const char *p_rl_readline_name;

/* ---------------------------------------------------------------- entry point of a process image */
extern int main(int argc, char **argv);
HID void p_start(int argc, char **argv, char **envp)
{
    booting = 1; char **av = p_malloc(sizeof(char *) * (argc + 1)); int i;
    for (i = 0; i < argc; i++) av[i] = p_strdup(argv[i]);
    av[argc] = NULL;
    for (i = 0; envp && envp[i]; i++);
    p_environ = p_malloc(sizeof(char *) * (i + 1)); env_own = 1;
    for (i = 0; envp && envp[i]; i++) p_environ[i] = p_strdup(envp[i]);
    p_environ[i] = NULL;
    p_stdin = fnew(0, 1); p_stdout = fnew(1, 2); p_stderr = fnew(2, 2);
    p_stdout->lbuf = 0; p_stderr->nbuf = 1;
    booting = 0;
    p_exit(main(argc, av));
}

/* ---- the checked variants that _FORTIFY_SOURCE calls when the size of the destination is known */
static void chkfail(const char *w) { k_note("STACK", w); k_abort(SIGABRT); }
#define CHK(need, have, what) do { if ((size_t)(need) > (have)) chkfail("buffer overflow: " what); } while (0)
HID long p___fdelt_chk(long d) { CHK(d + 1, 1024, "FD_SET"); if (d < 0) chkfail("FD_SET"); return d / 64; }
HID int p___printf_chk(int g, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = p_vfprintf(p_stdout, fmt, a); va_end(a); return r; }
HID int p___fprintf_chk(PFILE *f, int g, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = p_vfprintf(f, fmt, a); va_end(a); return r; }
HID int p___vfprintf_chk(PFILE *f, int g, const char *fmt, va_list a) { return p_vfprintf(f, fmt, a); }
HID int p___vprintf_chk(int g, const char *fmt, va_list a) { return p_vfprintf(p_stdout, fmt, a); }
HID void p___syslog_chk(int pr, int g, const char *f, ...) { va_list a; va_start(a, f); p_vsyslog(pr, f, a); va_end(a); }
HID void p___vsyslog_chk(int pr, int g, const char *f, va_list a) { p_vsyslog(pr, f, a); }
HID int p___open64_2(const char *p, int fl) { if (fl & O_CREAT) chkfail("open() without mode"); return p_open(p, fl); }
HID int p___vsnprintf_chk(char *b, size_t n, int g, size_t s, const char *f, va_list a) { CHK(n, s, "vsnprintf"); return vsnprintf(b, n, f, a); }
HID int p___snprintf_chk(char *b, size_t n, int g, size_t s, const char *f, ...) { CHK(n, s, "snprintf"); va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
HID int p___vsprintf_chk(char *b, int g, size_t s, const char *f, va_list a)
{ va_list c; va_copy(c, a); int n = vsnprintf(NULL, 0, f, c); va_end(c); CHK(n + 1, s, "sprintf"); return vsnprintf(b, n + 1, f, a); }
HID int p___sprintf_chk(char *b, int g, size_t s, const char *f, ...) { va_list a; va_start(a, f); int r = p___vsprintf_chk(b, g, s, f, a); va_end(a); return r; }
HID void *p___memcpy_chk(void *d, const void *x, size_t n, size_t s) { CHK(n, s, "memcpy"); return memcpy(d, x, n); }
HID void *p___mempcpy_chk(void *d, const void *x, size_t n, size_t s) { CHK(n, s, "mempcpy"); return (char *)memcpy(d, x, n) + n; }
HID void *p___memmove_chk(void *d, const void *x, size_t n, size_t s) { CHK(n, s, "memmove"); return memmove(d, x, n); }
HID void *p___memset_chk(void *d, int c, size_t n, size_t s) { CHK(n, s, "memset"); return memset(d, c, n); }
HID char *p___strcpy_chk(char *d, const char *x, size_t s) { CHK(strlen(x) + 1, s, "strcpy"); return strcpy(d, x); }
HID char *p___stpcpy_chk(char *d, const char *x, size_t s) { CHK(strlen(x) + 1, s, "stpcpy"); return stpcpy(d, x); }
HID char *p___strncpy_chk(char *d, const char *x, size_t n, size_t s) { CHK(n, s, "strncpy"); return strncpy(d, x, n); }
HID char *p___strcat_chk(char *d, const char *x, size_t s) { CHK(strlen(d) + strlen(x) + 1, s, "strcat"); return strcat(d, x); }
HID char *p___strncat_chk(char *d, const char *x, size_t n, size_t s) { CHK(strlen(d) + strnlen(x, n) + 1, s, "strncat"); return strncat(d, x, n); }
HID char *p___fgets_chk(char *b, size_t s, int n, PFILE *f) { CHK(n, s, "fgets"); return p_fgets(b, n, f); }
HID ssize_t p___read_chk(int fd, void *b, size_t n, size_t s) { CHK(n, s, "read"); return p_read(fd, b, n); }
HID ssize_t p___recv_chk(int fd, void *b, size_t n, size_t s, int fl) { CHK(n, s, "recv"); return p_recv(fd, b, n, fl); }
HID int p___gethostname_chk(char *b, size_t n, size_t s) { CHK(n, s, "gethostname"); return p_gethostname(b, n); }
