/* Simulated operating system: the interface between the simulated kernel (kern.c) and the
 * per-program C library (plibc.c) linked into each real fcron program. */
#ifndef KERN_H
#define KERN_H
#define _GNU_SOURCE 1
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>

typedef int64_t i64;
typedef uint64_t u64;

/* one user of the simulated passwd/shadow/group files */
typedef struct SimUser { const char *name; int uid, gid; const char *dir, *shell; } SimUser;
typedef struct SimGroup { const char *name; int gid; const char *members; } SimGroup;
extern SimUser sim_users[]; extern int sim_nusers;
extern SimGroup sim_groups[]; extern int sim_ngroups;

/* ---- syscalls: return >=0 or -errno; executed on the calling process's stack ---- */
int  k_open(const char *path, int flags, int mode);
int  k_close(int fd);
long k_read(int fd, void *buf, size_t n);
long k_write(int fd, const void *buf, size_t n);
long k_lseek(int fd, long off, int wh);
int  k_fstat(int fd, struct stat *st);
int  k_stat(const char *path, struct stat *st, int follow);
int  k_access(const char *path, int mode, int eff);
int  k_unlink(const char *path);
int  k_rmdir(const char *path);
int  k_rename(const char *a, const char *b);
int  k_link(const char *a, const char *b);
int  k_symlink(const char *a, const char *b);
long k_readlink(const char *a, char *buf, size_t n);
int  k_mkdir(const char *path, int mode);
int  k_chmod(const char *path, int mode);
int  k_fchmod(int fd, int mode);
int  k_chown(const char *path, int uid, int gid);
int  k_fchown(int fd, int uid, int gid);
int  k_fcntl(int fd, int cmd, long arg);
int  k_ftruncate(int fd, long len);
int  k_fsync(int fd, int data);
int  k_flock(int fd, int op);
int  k_dup(int fd);
int  k_dup2(int a, int b);
int  k_pipe(int fds[2], int flags);
int  k_fork(void);
int  k_execve(const char *path, char *const argv[], char *const envp[]);
void k_exit(int code) __attribute__((noreturn));
void k_abort(int sig) __attribute__((noreturn));
int  k_waitpid(int pid, int *st, int opts);
int  k_kill(int pid, int sig);
int  k_getpid(void); int k_getppid(void); int k_getpgrp(void);
int  k_getuid(void); int k_geteuid(void); int k_getgid(void); int k_getegid(void);
int  k_setuid(int u); int k_seteuid(int u); int k_setgid(int g); int k_setegid(int g);
int  k_setresuid(int r,int e,int s); int k_setresgid(int r,int e,int s);
int  k_setgroups(int n, const gid_t *g); int k_getgroups(int n, gid_t *g);
int  k_umask(int m);
int  k_setpriority(int which, int who, int prio); int k_getpriority(int which, int who, int *out);
int  k_nice(int inc, int *out);
int  k_setsid(void); int k_setpgid(int p, int g);
int  k_chdir(const char *p); int k_getcwd(char *buf, size_t n);
int  k_getdents(int fd, int idx, char *name, u64 *ino, int *type);  /* 1 ok, 0 end */
int  k_sigaction(int sig, const struct sigaction *n, struct sigaction *o);
int  k_sigprocmask(int how, const sigset_t *n, sigset_t *o);
int  k_sigsuspend(const sigset_t *m);
int  k_nanosleep(i64 us, i64 *rem);
void k_gettime(int clk, struct timespec *ts);
int  k_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv, const sigset_t *m);
int  k_poll(struct pollfd *p, int n, int tmo_ms);
int  k_timerfd_create(int clk, int fl);
int  k_timerfd_settime(int fd, int fl, const struct itimerspec *n);
int  k_socket(int d, int t, int p);
int  k_bind(int fd, const struct sockaddr *a, int len);
int  k_listen(int fd, int n);
int  k_accept(int fd, struct sockaddr *a, socklen_t *len, int flags);
int  k_connect(int fd, const struct sockaddr *a, int len);
long k_send(int fd, const void *b, size_t n, int fl);
long k_recv(int fd, void *b, size_t n, int fl);
int  k_shutdown(int fd, int how);
int  k_getsockopt(int fd, int l, int o, void *v, socklen_t *len);
int  k_setsockopt(int fd, int l, int o, const void *v, socklen_t len);
int  k_ioctl(int fd, unsigned long req);
int  k_isatty(int fd);
int  k_pamask(const char *user);
int  k_tcecho(int fd, int set, int echo);
int  k_alarm(int s);
int  k_loadavg(double *v, int n);
int  k_gethostname(char *b, size_t n);
void k_syslog(int pri, const char *msg);
void k_openlog(void);
int  k_pam(int which, const char *user);
int  k_mem_fault(size_t n);            /* 1 = this allocation fails */
void k_note(const char *what, const char *arg); /* debugging notes in the trace */
void k_sync(void);
u64  k_random_seed(void);
/* timezone-aware wrappers: host glibc with TZ switched to the process's TZ */
int k_localtime(const char *tz, const time_t *t, struct tm *out);
time_t k_mktime(const char *tz, struct tm *tm);
size_t k_strftime(const char *tz, char *b, size_t n, const char *f, const struct tm *tm);
#endif
