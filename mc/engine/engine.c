// Controlled scheduler and environment for model checking unmodified ipmb code.
//
// Linked into the harness executable, it defines the libc entry points the library (and std) use to
// block, to talk to other threads/processes, to read clocks and to create threads.  Exactly one thread
// runs at a time; every such call, and every atomic operation reported by the compiler's
// thread-sanitizer instrumentation (for which this file is the run-time), is a scheduling point at which
// the next thread is picked from a recorded choice sequence.  The kernel objects themselves are real.
#define _GNU_SOURCE
#include "engine.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

static inline long rsys(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
#define S0(n) rsys(n, 0, 0, 0, 0, 0, 0)
#define S1(n, a) rsys(n, (long)(a), 0, 0, 0, 0, 0)
#define S2(n, a, b) rsys(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define S3(n, a, b, c) rsys(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define S4(n, a, b, c, d) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define S5(n, a, b, c, d, e) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0)
#define S6(n, a, b, c, d, e, f) rsys(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static inline long ret_errno(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

enum { W_NONE, W_IN, W_OUT, W_FUTEX, W_SLEEP, W_JOIN, W_QUIESCE, W_IDLE, W_KVER, W_POLL, W_FLAG };
enum { ST_FREE, ST_READY, ST_DONE, ST_KILLED };
#define MAXT 96
#define MAXP 32
#define MAXFD 2048

typedef struct Thread {
    int id, proc, state;
    pthread_t pt;
    int go;
    const char *op;
    int wk, fd;
    void *addr;
    int nfds;
    int woken;
    int jtid;
    uint64_t kver;
    int64_t deadline;
    uint64_t hist;
    uint64_t rng;
    uint32_t npoints;
    void *(*fn)(void *);
    void *arg;
    char name[24];
} Thread;

static Thread T[MAXT];
static int nT;
static volatile int active;
static __thread Thread *self;
static __thread int in_engine;
static McSlot *S;
static uint64_t name_salt;
static McPcTab *PT;
static int64_t vnow;
static uint64_t kver;
static int next_proc = -1;
static int proc_dead[MAXP];
static int expl = 1; // schedule alternatives are explored (a scenario's set-up turns this off)
static uint32_t streak;

typedef struct {
    short owner; // -1: not tracked
    char kind;
    char cloexec;
    int group;   // fingerprint object: 0 is the bus (connections, listener, event counters), others are private channels
} FdInfo;
static FdInfo fdi[MAXFD];
enum { K_SOCK = 1, K_EPOLL, K_EVENT, K_MEM, K_OTHER };

// fault switches (set by the scenario)
enum { F_KILL = 1, F_TIMER = 2, F_EINTR_EPOLL = 4, F_EINTR_SEND = 8, F_EMFILE = 16, F_NOMEM = 32, F_ENOBUFS = 64, F_EINTR_RECV = 128, F_EINTR_ACCEPT = 256 };
static uint32_t fault_mask, fault_procs, kill_procs;
static int bad_close;
static int non_cloexec;
static char cloexec_msg[64];
static int max_faults_here = 1 << 30;

static uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

// Fingerprints.  Every shared object has a version hash; an operation mixes the version it saw into the
// thread's history, and a modifying operation makes a new version from that history.  Equal histories and
// versions mean equal states (for programs whose unsynchronised accesses do not race).
#define MAXGRP 256
static uint64_t other_ver;
static uint64_t grp_ver[MAXGRP];
static struct { uint64_t ino; int group; } grp_ino[MAXGRP];
static int ngrp_ino, ngrp = 1;
static void obj_read(uint64_t *v) { self->hist = mix(self->hist, *v); }
static void obj_write(uint64_t *v) {
    self->hist = mix(self->hist, *v);
    *v = mix(*v, self->hist);
}
static int group_of_ino(uint64_t ino) {
    for (int i = 0; i < ngrp_ino; i++)
        if (grp_ino[i].ino == ino) return grp_ino[i].group;
    return 0;
}

static void logf_(const char *fmt, ...) {
    if (!S || !S->verbose) return;
    uint32_t at = S->loglen;
    if (at + 400 > MC_LOG) return;
    va_list ap;
    va_start(ap, fmt);
    int k = vsnprintf(S->log + at, 380, fmt, ap);
    va_end(ap);
    if (k > 380) k = 380;
    S->loglen = at + k;
}

static void __attribute__((noreturn)) finish(int outcome, const char *sig, const char *msg) {
    if (S->outcome == OUT_NONE) {
        if (sig) snprintf(S->sig, sizeof S->sig, "%s", sig);
        if (msg) snprintf(S->msg, sizeof S->msg, "%s", msg);
        __sync_synchronize();
        S->outcome = outcome;
    }
    S1(SYS_exit_group, 0);
    for (;;) ;
}

static void describe(char *buf, size_t n) {
    size_t at = 0;
    buf[0] = 0;
    for (int i = 0; i < nT; i++) {
        Thread *t = &T[i];
        if (t->state != ST_READY) continue;
        int k = snprintf(buf + at, n - at, "T%d(p%d %s): %s fd=%d deadline=%ld; ", t->id, t->proc, t->name, t->op ? t->op : "?", t->wk == W_IN || t->wk == W_OUT ? t->fd : -1, (long)t->deadline);
        if (k < 0 || at + k >= n) break;
        at += k;
    }
}

static void futex_wake_raw(int *a) { S6(SYS_futex, a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
static void park(Thread *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) S6(SYS_futex, &t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void unpark(Thread *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    futex_wake_raw(&t->go);
}

// ---------------------------------------------------------------- choices
static uint64_t fingerprint(uint32_t kind, uint32_t n) {
    uint64_t h = mix(kind * 1000 + n, self && kind != CH_FREE ? self->id : 999);
    for (int i = 0; i < nT; i++) h += mix(T[i].hist, (uint64_t)(T[i].state * 31 + T[i].wk * 5 + T[i].woken + i * 1009 + T[i].proc * 100003) + (uint64_t)T[i].deadline * 7);
    for (int i = 0; i < ngrp; i++) h += mix(grp_ver[i], i);
    return mix(mix(h, (uint64_t)vnow), other_ver);
}
static uint32_t choose(uint32_t n, uint32_t nsched, uint32_t kind) {
    if (n <= 1) return 0;
    if (n > 250) finish(OUT_ENGINE, "engine", "too many alternatives");
    uint32_t i = S->nch;
    if (i >= MC_MAXCH) finish(OUT_HORIZON, "horizon", "choice sequence too long");
    uint32_t c = 0;
    if (i < S->prefix_len) {
        McChoice *p = &S->prefix[i];
        if (p->n != n || p->chosen >= n || p->kind != kind || p->nsched != nsched) {
            char b[160];
            snprintf(b, sizeof b, "replay diverged at choice %u: expected n=%u kind=%u nsched=%u, got n=%u kind=%u nsched=%u", i, p->n, p->kind, p->nsched, n, kind, nsched);
            finish(OUT_DIVERGED, "diverged", b);
        }
        c = p->chosen;
    }
    S->chst[i] = fingerprint(kind, n);
    S->ch[i] = (McChoice){(uint8_t)n, (uint8_t)c, (uint8_t)nsched, (uint8_t)kind};
    S->nch = i + 1;
    return c;
}

// ---------------------------------------------------------------- readiness
static uint64_t poll_kver = ~0ull;
static uint8_t pready[MAXT];
static void refresh_ready(void) {
    if (poll_kver == kver) return;
    struct pollfd pf[MAXT];
    int idx[MAXT], n = 0;
    for (int i = 0; i < nT; i++) {
        Thread *t = &T[i];
        pready[i] = 0;
        if (t->state != ST_READY) continue;
        if (t->wk == W_IN || t->wk == W_OUT) {
            pf[n].fd = t->fd;
            pf[n].events = t->wk == W_IN ? POLLIN : POLLOUT;
            pf[n].revents = 0;
            idx[n++] = i;
        } else if (t->wk == W_POLL) {
            struct pollfd *u = t->addr;
            struct pollfd tmp[64];
            int m = t->nfds > 64 ? 64 : t->nfds;
            memcpy(tmp, u, sizeof(struct pollfd) * m);
            pready[i] = S3(SYS_poll, tmp, m, 0) > 0;
        }
    }
    if (n) {
        S3(SYS_poll, pf, n, 0);
        for (int k = 0; k < n; k++) pready[idx[k]] = pf[k].revents != 0;
    }
    poll_kver = kver;
}
static int cond_holds(Thread *t) {
    switch (t->wk) {
    case W_NONE: return 1;
    case W_IN:
    case W_OUT:
    case W_POLL: refresh_ready(); return pready[t->id];
    case W_FUTEX: return t->woken;
    case W_SLEEP: return 0;
    case W_JOIN: return T[t->jtid].state == ST_DONE || T[t->jtid].state == ST_KILLED;
    case W_KVER: return t->kver != kver;
    case W_FLAG: return *(volatile int *)t->addr != 0;
    }
    return 0;
}
static int enabled(Thread *t) {
    if (t->state != ST_READY) return 0;
    if (t->wk == W_QUIESCE || t->wk == W_IDLE) return 0;
    if (t->deadline >= 0 && vnow >= t->deadline) return 1;
    return cond_holds(t);
}

static void close_proc_fds(int p) {
    other_ver = mix(other_ver, p + 1);
    for (int i = 0; i < ngrp; i++) grp_ver[i] = mix(grp_ver[i], p + 1);
    for (int fd = 0; fd < MAXFD; fd++)
        if (fdi[fd].owner == p) {
            fdi[fd].owner = -1;
            S1(SYS_close, fd);
        }
    kver++;
}
static void kill_proc(int p) {
    if (self) other_ver = mix(other_ver, self->hist);
    logf_("  ** process %d killed\n", p);
    proc_dead[p] = 1;
    for (int i = 0; i < nT; i++)
        if (T[i].proc == p && T[i].state == ST_READY) T[i].state = ST_KILLED;
    close_proc_fds(p);
}


// Picks the next thread to run; `me` is the running thread, at a point (ST_READY) or finished/killed.
// Returns when `me` is granted (never for a finished thread).
static void reschedule(Thread *me) {
    for (;;) {
        if (S->steps++ > S->horizon) {
            char b[4000];
            describe(b, sizeof b);
            finish(OUT_HORIZON, "horizon", b);
        }
        int cand[MAXT], nc = 0;
        int me_en = me->state == ST_READY && enabled(me);
        if (me_en) cand[nc++] = me->id;
        // a fixed order when the running thread cannot go on, so that equal states offer equal choices
        for (int k = 1; k < nT + 1; k++) {
            Thread *t = &T[me_en ? (me->id + k) % nT : k % nT];
            if (t != me && enabled(t)) cand[nc++] = t->id;
        }
        if (nc == 0) {
            // quiescent: first those waiting for quiescence, then time, then idle waiters
            Thread *q = 0;
            for (int i = 0; i < nT; i++)
                if (T[i].state == ST_READY && T[i].wk == W_QUIESCE) { q = &T[i]; break; }
            if (!q) {
                int64_t best = -1;
                for (int i = 0; i < nT; i++)
                    if (T[i].state == ST_READY && T[i].deadline >= 0 && T[i].wk != W_IDLE && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
                Thread *idle = 0;
                for (int i = 0; i < nT; i++)
                    if (T[i].state == ST_READY && T[i].wk == W_IDLE) { idle = &T[i]; break; }
                if (idle && (best < 0 || (idle->deadline >= 0 && idle->deadline <= best))) {
                    if (idle->deadline > vnow) vnow = idle->deadline;
                    q = idle;
                } else if (best >= 0) {
                    if (best > vnow) vnow = best;
                    logf_("  -- time advances to %ld.%06ld ms\n", (long)(vnow / 1000000), (long)(vnow % 1000000));
                    continue;
                }
            }
            if (!q) {
                char b[4000];
                describe(b, sizeof b);
                finish(OUT_DEADLOCK, "deadlock", b);
            }
            cand[nc++] = q->id;
        }
        int forced = 0;
        if (me_en && nc > 1 && streak > S->fair_k) {
            // fairness: a thread that keeps running while others could must let them run
            int c0 = cand[0];
            memmove(cand, cand + 1, sizeof(int) * (nc - 1));
            cand[nc - 1] = c0;
            streak = 0;
            forced = 1;
        }
        uint32_t n = nc, nsched = nc;
        if (S->nosched || !expl || forced) n = nsched = 1;
        int kills[MAXP], nk = 0;
        int timer = 0;
        if (fault_mask && expl && S->faults < (uint32_t)max_faults_here) {
            if ((fault_mask & F_KILL) && me->state == ST_READY && (kill_procs >> me->proc & 1) && !proc_dead[me->proc]) kills[nk++] = me->proc;
            if (fault_mask & F_TIMER) {
                int64_t best = -1;
                for (int i = 0; i < nT; i++)
                    if (T[i].state == ST_READY && T[i].deadline > vnow && T[i].wk != W_IDLE && (fault_procs >> T[i].proc & 1) && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
                if (best >= 0) timer = 1;
            }
        }
        n += nk + timer;
        uint32_t c = choose(n, nsched, (me_en && !forced) ? CH_PREEMPT : CH_FREE);
        if (c >= nsched) {
            S->faults++;
            c -= nsched;
            if (c < (uint32_t)nk) {
                kill_proc(kills[c]);
                streak = 0;
                continue;
            }
            int64_t best = -1;
            for (int i = 0; i < nT; i++)
                if (T[i].state == ST_READY && T[i].deadline > vnow && T[i].wk != W_IDLE && (fault_procs >> T[i].proc & 1) && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
            vnow = best;
            logf_("  -- (fault) time advances early to %ld.%06ld ms\n", (long)(vnow / 1000000), (long)(vnow % 1000000));
            continue;
        }
        if (c > 0 && me_en) S->preemptions++;
        Thread *t = &T[cand[c]];
        if (t == me) {
            if (nc > 1) streak++; else streak = 0;
            return;
        }
        streak = 0;
        unpark(t);
        if (me->state == ST_DONE) return;
        park(me);
        return;
    }
}

static void point(const char *op, int wk, int fd, int64_t deadline) {
    Thread *me = self;
    me->op = op;
    me->wk = wk;
    me->fd = fd;
    me->deadline = deadline;
    me->npoints++;
    if (wk == W_IN || wk == W_OUT || wk == W_POLL) poll_kver = ~0ull;
    reschedule(me);
}
static void done_op(const char *op, long a, long r) {
    self->hist = mix(self->hist, (uint64_t)r * 31 + (uint64_t)op[0] * 257 + op[1] * 7 + op[2]);
    self->wk = W_NONE;
    self->woken = 0;
    self->deadline = -1;
    logf_("  T%d(p%d %s) %s(%ld) = %ld\n", self->id, self->proc, self->name, op, a, r);
}
#define ON (active && self && !in_engine)

static int fault(uint32_t bit) {
    if (!(fault_mask & bit) || !expl || !(fault_procs >> self->proc & 1) || S->faults >= (uint32_t)max_faults_here) return 0;
    uint32_t c = choose(2, 1, CH_FAULT);
    self->hist = mix(self->hist, c + bit);
    if (c) S->faults++;
    return c;
}

static int tracked_(int fd) { return fd >= 0 && fd < MAXFD && fdi[fd].owner >= 0; }
static void track(int fd, int kind) {
    if (fd < 0 || fd >= MAXFD || !active || !self) return;
    fdi[fd].owner = self->proc;
    fdi[fd].kind = kind;
    fdi[fd].group = 0;
    if (kind == K_OTHER && ngrp_ino) {
        struct stat st;
        st.st_ino = 0;
        S2(SYS_fstat, fd, &st);
        fdi[fd].group = group_of_ino(st.st_ino);
    }
    int fl = (int)S3(SYS_fcntl, fd, F_GETFD, 0);
    fdi[fd].cloexec = fl & FD_CLOEXEC ? 1 : 0;
    if (!(fl & FD_CLOEXEC)) {
        if (!non_cloexec) snprintf(cloexec_msg, sizeof cloexec_msg, "%s", self->op ? self->op : "?");
        non_cloexec++;
    }
}
static void new_pair(int a, int b) {
    if (!tracked_(a) || !tracked_(b) || ngrp >= MAXGRP || ngrp_ino + 2 > MAXGRP) return;
    int g = ngrp++;
    for (int k = 0; k < 2; k++) {
        int fd = k ? b : a;
        struct stat st;
        st.st_ino = 0;
        S2(SYS_fstat, fd, &st);
        grp_ino[ngrp_ino].ino = st.st_ino;
        grp_ino[ngrp_ino++].group = g;
        fdi[fd].group = g;
    }
}
static uint64_t *fdobj(int fd) { return &grp_ver[tracked_(fd) ? fdi[fd].group : 0]; }
static int tracked(int fd) { return fd >= 0 && fd < MAXFD && fdi[fd].owner >= 0; }

// ---------------------------------------------------------------- harness API
void mc_explore(int on) { expl = on; }
void mc_set_proc(int p) { self->proc = p; }
int mc_proc(void) { return self ? self->proc : -1; }
void mc_set_next_proc(int p) { next_proc = p; }
int64_t mc_now(void) { return vnow; }
uint32_t mc_choose(uint32_t n) {
    uint32_t c = choose(n, n, CH_DATA);
    if (self) self->hist = mix(self->hist, c + 77);
    return c;
}
void mc_faults(uint32_t mask, uint32_t procs, uint32_t kills, int max) {
    fault_mask = mask;
    fault_procs = procs;
    kill_procs = kills;
    max_faults_here = max;
}
uint32_t mc_fault_count(void) { return S->faults; }
static void see_all(void) {
    for (int i = 0; i < nT; i++) self->hist = mix(self->hist, T[i].hist);
}
void mc_quiesce(void) { point("quiesce", W_QUIESCE, -1, -1); see_all(); done_op("quiesce", 0, 0); }
// let virtual time run until nothing is left to happen, or until `ns` from now
void mc_idle(int64_t ns) { point("idle", W_IDLE, -1, ns < 0 ? -1 : vnow + ns); see_all(); done_op("idle", 0, 0); }
void mc_wait_flag(int *f) {
    self->addr = f;
    point("wait_flag", W_FLAG, -1, -1);
    obj_read(&other_ver);
    done_op("wait_flag", 0, 0);
}
void mc_set_flag(int *f) {
    *f = 1;
    if (self) obj_write(&other_ver);
}
void mc_yield(void) { point("yield", W_NONE, -1, -1); done_op("yield", 0, 0); }
void mc_kill(int p) {
    kill_proc(p);
    if (self->state == ST_KILLED) { reschedule(self); for (;;) park(self); }
}
int mc_is_dead(int p) { return proc_dead[p]; }
int mc_fd_count(int p) {
    int n = 0;
    for (int i = 0; i < MAXFD; i++) n += fdi[i].owner == p;
    return n;
}
int mc_fd_count_kind(int p, int kind) {
    int n = 0;
    for (int i = 0; i < MAXFD; i++) n += fdi[i].owner == p && fdi[i].kind == kind;
    return n;
}
int mc_fd_owner(int fd) { return fd >= 0 && fd < MAXFD ? fdi[fd].owner : -1; }
void mc_fd_adopt(int fd, int p) { if (fd >= 0 && fd < MAXFD) fdi[fd].owner = p; }
int mc_bad_close(void) { return bad_close; }
int mc_non_cloexec(char *buf, int n) { snprintf(buf, n, "%s", cloexec_msg); return non_cloexec; }
int mc_non_cloexec_open(int p) {
    int n = 0;
    for (int i = 0; i < MAXFD; i++)
        if (fdi[i].owner == p && !(S3(SYS_fcntl, i, F_GETFD, 0) & FD_CLOEXEC)) n++;
    return n;
}
void mc_fail(const char *sig, const char *msg) { finish(OUT_FAIL, sig, msg); }
void mc_panic(const char *sig, const char *msg) { finish(OUT_PANIC, sig, msg); }
int mc_active(void) { return active && self != 0; }
void mc_note(const char *s) { logf_("%s\n", s); }
void mc_set_name(const char *s) { if (self) snprintf(self->name, sizeof self->name, "%s", s); }
int mc_self_id(void) { return self ? self->id : -1; }
void mc_engine_off(int off) { in_engine = off; }
int mc_threads_alive(int p) {
    int n = 0;
    for (int i = 0; i < nT; i++) n += T[i].proc == p && T[i].state == ST_READY;
    return n;
}
void mc_advance(int64_t ns) { vnow += ns; }
void mc_end(void) { finish(OUT_OK, 0, 0); }

void mc_begin(McSlot *slot, McPcTab *pt) {
    S = slot;
    PT = pt;
    memset(fdi, 0xff, sizeof fdi);
    nT = 1;
    T[0].id = 0;
    T[0].proc = 0;
    T[0].state = ST_READY;
    T[0].deadline = -1;
    T[0].pt = pthread_self();
    strcpy(T[0].name, "driver");
    self = &T[0];
    vnow = 1000000000000ll;
    if (S3(SYS_getrandom, &name_salt, sizeof name_salt, 0) != sizeof name_salt) name_salt = S0(SYS_getpid);
    active = 1;
}

// ---------------------------------------------------------------- threads
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static void *tmain(void *p) {
    Thread *t = p;
    self = t;
    park(t);
    void *r = t->fn(t->arg);
    t->state = ST_DONE;
    t->op = "exit";
    t->wk = W_NONE;
    logf_("  T%d exits\n", t->id);
    reschedule(t);
    self = 0;
    return r;
}
int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!ON) return real_pthread_create(pt, attr, fn, arg);
    if (nT >= MAXT) finish(OUT_ENGINE, "engine", "too many threads");
    Thread *t = &T[nT];
    memset(t, 0, sizeof *t);
    t->id = nT;
    t->proc = next_proc >= 0 ? next_proc : self->proc;
    next_proc = -1;
    t->fn = fn;
    t->arg = arg;
    t->deadline = -1;
    t->op = "start";
    t->wk = W_NONE;
    snprintf(t->name, sizeof t->name, "thread%d", t->id);
    int r = real_pthread_create(&t->pt, attr, tmain, t);
    if (r) return r;
    *pt = t->pt;
    t->hist = mix(self->hist, t->id);
    t->state = ST_READY;
    nT++;
    logf_("  T%d(p%d) spawns T%d(p%d)\n", self->id, self->proc, t->id, t->proc);
    point("spawn", W_NONE, -1, -1);
    done_op("spawn", t->id, 0);
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
    if (ON)
        for (int i = 0; i < nT; i++)
            if (T[i].state != ST_FREE && pthread_equal(T[i].pt, pt)) {
                if (T[i].state != ST_DONE) {
                    self->jtid = i;
                    point("join", W_JOIN, -1, -1);
                    done_op("join", i, 0);
                }
                self->hist = mix(self->hist, T[i].hist);
                if (T[i].state == ST_KILLED) { if (ret) *ret = 0; return 0; }
                break;
            }
    return real_pthread_join(pt, ret);
}
int sched_yield(void) {
    if (!ON) return (int)S0(SYS_sched_yield);
    streak = S->fair_k + 1; // a spinning thread asks the others to go first
    point("yield", W_NONE, -1, -1);
    done_op("yield", 0, 0);
    return 0;
}

// ---------------------------------------------------------------- time
static int64_t ts_ns(const struct timespec *ts) {
    if (ts->tv_sec > 9000000000ll) return 9000000000000000000ll;
    return (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
}
static int64_t add_sat(int64_t a, int64_t b) { return b > 9000000000000000000ll - a ? -1 : a + b; }
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!ON) return (int)ret_errno(S2(SYS_clock_gettime, c, ts));
    self->hist = mix(self->hist, vnow);
    int64_t v = vnow + (c == CLOCK_REALTIME ? 1700000000000000000ll : 0);
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
}
static void vsleep(int64_t until) {
    point("sleep", W_SLEEP, -1, until);
    done_op("sleep", 0, 0);
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
    if (!ON) return (int)ret_errno(S2(SYS_nanosleep, req, rem));
    vsleep(add_sat(vnow, ts_ns(req)));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
    if (!ON) return (int)-S4(SYS_clock_nanosleep, c, flags, req, rem);
    int64_t v = ts_ns(req);
    if (flags & TIMER_ABSTIME) {
        if (c == CLOCK_REALTIME) v -= 1700000000000000000ll;
        vsleep(v);
    } else
        vsleep(add_sat(vnow, v));
    return 0;
}
int usleep(unsigned us) {
    struct timespec t = {us / 1000000, (us % 1000000) * 1000};
    return nanosleep(&t, 0);
}

// ---------------------------------------------------------------- futex / syscall
static void fut_obj(void *a, int wr);
static long do_futex(int *uaddr, int op, int val, const struct timespec *to, int *u2, int v3) {
    int cmd = op & FUTEX_CMD_MASK;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
        int64_t dl = -1;
        if (to) {
            dl = ts_ns(to);
            if (cmd == FUTEX_WAIT) dl = add_sat(vnow, dl);
            else if (op & FUTEX_CLOCK_REALTIME) dl -= 1700000000000000000ll;
            if (dl >= 9000000000000000000ll) dl = -1;
            else if (dl < 0 && dl != -1) dl = 0;
        }
        fut_obj(uaddr, 0);
        self->addr = uaddr;
        self->woken = 0;
        point("futex_wait", W_FUTEX, -1, dl);
        int w = self->woken;
        self->woken = 0;
        done_op("futex_wait", 0, w);
        return w ? 0 : -ETIMEDOUT;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        int n = 0;
        for (int i = 0; i < nT && n < val; i++)
            if (T[i].state == ST_READY && T[i].wk == W_FUTEX && T[i].addr == uaddr && !T[i].woken) {
                T[i].woken = 1;
                n++;
            }
        if (n) {
            fut_obj(uaddr, 1);
            point("futex_wake", W_NONE, -1, -1);
            done_op("futex_wake", 0, n);
        }
        return n;
    }
    return S6(SYS_futex, uaddr, op, val, to, u2, v3);
}
static void fill_random(void *b, size_t n) {
    unsigned char *p = b;
    for (size_t i = 0; i < n; i += 8) {
        uint64_t v = mix(0x1234567 + self->id, ++self->rng);
        memcpy(p + i, &v, n - i < 8 ? n - i : 8);
    }
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!ON) return ret_errno(S3(SYS_getrandom, b, n, fl));
    fill_random(b, n);
    return (ssize_t)n;
}
int memfd_create(const char *name, unsigned fl);
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (ON) {
        if (n == SYS_futex) return ret_errno(do_futex((int *)a, (int)b, (int)c, (void *)d, (int *)e, (int)f));
        if (n == SYS_getrandom) { fill_random((void *)a, b); return b; }
        if (n == SYS_memfd_create) return memfd_create((void *)a, (unsigned)b);
    }
    return ret_errno(rsys(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- sockets, epoll, eventfd
int socket(int d, int t, int p) {
    if (!ON) return (int)ret_errno(S3(SYS_socket, d, t, p));
    self->op = "socket";
    if (fault(F_EMFILE)) { logf_("  T%d socket: injected EMFILE\n", self->id); errno = EMFILE; return -1; }
    long r = S3(SYS_socket, d, t, p);
    if (r >= 0) track(r, K_SOCK);
    return (int)ret_errno(r);
}
int socketpair(int d, int t, int p, int sv[2]) {
    if (!ON) return (int)ret_errno(S4(SYS_socketpair, d, t, p, sv));
    self->op = "socketpair";
    if (fault(F_EMFILE)) { errno = EMFILE; return -1; }
    long r = S4(SYS_socketpair, d, t, p, sv);
    if (r >= 0) { track(sv[0], K_SOCK); track(sv[1], K_SOCK); new_pair(sv[0], sv[1]); }
    return (int)ret_errno(r);
}
// Abstract names are replaced by hashes with a salt of the execution: equal ones stay equal, different ones
// different, and executions and other processes of the system do not meet.
static const struct sockaddr *private_name(const struct sockaddr *a, socklen_t *l, struct sockaddr_un *u) {
    const struct sockaddr_un *s = (const void *)a;
    if (!active || !a || *l <= offsetof(struct sockaddr_un, sun_path) || *l > sizeof *s || s->sun_family != AF_UNIX || s->sun_path[0]) return a;
    uint64_t h1 = mix(name_salt, *l), h2 = mix(~name_salt, *l * 31);
    for (size_t i = offsetof(struct sockaddr_un, sun_path); i < *l; i++) {
        h1 = mix(h1, ((const unsigned char *)a)[i]);
        h2 = mix(h2, ((const unsigned char *)a)[i] + 7);
    }
    memset(u, 0, sizeof *u);
    u->sun_family = AF_UNIX;
    int n = snprintf(u->sun_path + 1, sizeof u->sun_path - 1, "mc-%016lx-%016lx-%016lx", (unsigned long)name_salt, (unsigned long)h1, (unsigned long)h2);
    *l = offsetof(struct sockaddr_un, sun_path) + 1 + n;
    return (const void *)u;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_un u;
    a = private_name(a, &l, &u);
    if (!ON) return (int)ret_errno(S3(SYS_bind, fd, a, l));
    point("bind", W_NONE, fd, -1);
    long r = S3(SYS_bind, fd, a, l);
    kver++;
    obj_write(fdobj(fd));
    done_op("bind", fd, r);
    return (int)ret_errno(r);
}
int listen(int fd, int n) {
    if (!ON) return (int)ret_errno(S2(SYS_listen, fd, n));
    point("listen", W_NONE, fd, -1);
    long r = S2(SYS_listen, fd, n);
    kver++;
    obj_write(fdobj(fd));
    done_op("listen", fd, r);
    return (int)ret_errno(r);
}
// sockets with a timeout of their own
static int any_timeo;
static int64_t sock_deadline(int fd, int o) {
    struct timeval tv = {0, 0};
    socklen_t l = sizeof tv;
    if (!any_timeo || S5(SYS_getsockopt, fd, SOL_SOCKET, o, &tv, &l) < 0 || (!tv.tv_sec && !tv.tv_usec)) return -1;
    return vnow + tv.tv_sec * 1000000000ll + tv.tv_usec * 1000ll;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_un u;
    a = private_name(a, &l, &u);
    if (!ON) return (int)ret_errno(S3(SYS_connect, fd, a, l));
    int wk = W_NONE;
    int64_t dl = -1;
    long r;
    int nb = (int)S3(SYS_fcntl, fd, F_GETFL, 0);
    for (;;) {
        self->kver = kver;
        point("connect", wk, fd, dl);
        S3(SYS_fcntl, fd, F_SETFL, nb | O_NONBLOCK);
        r = S3(SYS_connect, fd, a, l);
        S3(SYS_fcntl, fd, F_SETFL, nb);
        if (r != -EAGAIN) kver++;
        if (r == -EAGAIN && !(nb & O_NONBLOCK) && (dl < 0 || vnow < dl)) {
            if (wk == W_NONE) dl = sock_deadline(fd, SO_SNDTIMEO);
            wk = W_KVER;
            continue;
        }
        break;
    }
    obj_write(fdobj(fd));
    done_op("connect", fd, r);
    return (int)ret_errno(r);
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    int nb = (int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK;
    point("accept", nb ? W_NONE : W_IN, fd, -1);
    long r;
    if (fault(F_EMFILE)) r = -EMFILE;
    else if (fault(F_EINTR_ACCEPT)) r = -EINTR;
    else r = S4(SYS_accept4, fd, a, l, fl);
    kver++;
    if (r >= 0) track(r, K_SOCK);
    obj_write(fdobj(fd));
    logf_("  T%d accept -> %ld\n", self->id, r);
    done_op("accept", fd, r < 0 ? r : 0);
    return (int)ret_errno(r);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) {
    if (!ON) return (int)ret_errno(S4(SYS_accept4, fd, a, l, 0));
    return do_accept(fd, a, l, 0);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
    if (!ON) return (int)ret_errno(S4(SYS_accept4, fd, a, l, fl));
    return do_accept(fd, a, l, fl);
}
int shutdown(int fd, int how) {
    long r = S2(SYS_shutdown, fd, how);
    if (ON) { kver++; obj_write(fdobj(fd)); }
    return (int)ret_errno(r);
}
int setsockopt(int fd, int lv, int o, const void *v, socklen_t l) {
    if (lv == SOL_SOCKET && (o == SO_SNDTIMEO || o == SO_RCVTIMEO)) any_timeo = 1;
    if (ON && S->sndbuf && lv == SOL_SOCKET && (o == SO_SNDBUF || o == SO_RCVBUF) && l >= 4) {
        int x = (int)S->sndbuf;
        return (int)ret_errno(S5(SYS_setsockopt, fd, lv, o, &x, sizeof x));
    }
    return (int)ret_errno(S5(SYS_setsockopt, fd, lv, o, v, l));
}
static uint64_t nsend, nrecv;
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    if (!ON) return ret_errno(S3(SYS_sendmsg, fd, m, fl));
    int nb = (fl & MSG_DONTWAIT) || ((int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK);
    int wk = W_NONE;
    int64_t dl = -1;
    long r;
    for (;;) {
        point("sendmsg", wk, fd, dl);
        if (fault(F_ENOBUFS)) { r = -ENOBUFS; break; }
        r = S3(SYS_sendmsg, fd, m, fl | MSG_DONTWAIT);
        kver++;
        if (r == -EAGAIN && !nb) {
            obj_read(fdobj(fd));
            logf_("  T%d sendmsg(%d) blocks\n", self->id, fd);
            // a signal can only interrupt a call that sleeps
            if (fault(F_EINTR_SEND)) { r = -EINTR; break; }
            if (dl >= 0 && vnow >= dl) break;
            if (wk == W_NONE) dl = sock_deadline(fd, SO_SNDTIMEO);
            wk = W_OUT;
            continue;
        }
        break;
    }
    nsend++;
    obj_write(fdobj(fd));
    done_op("sendmsg", fd, r);
    return ret_errno(r);
}
// the next message received by process cut_proc finds room for only cut_room descriptors
static int cut_proc = -1, cut_room;
void mc_cut(int p, int room) { cut_proc = p; cut_room = room; }
static void limit_fds(int room) {
    struct { unsigned long cur, max; } l;
    S4(SYS_prlimit64, 0, 7, 0, &l);
    l.cur = l.max;
    if (room >= 0) {
        int fd = 3, n = -1;
        for (;; fd++)
            if (S3(SYS_fcntl, fd, F_GETFD, 0) < 0 && ++n == room) break;
        l.cur = fd;
    }
    S4(SYS_prlimit64, 0, 7, &l, 0);
}
ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
    if (!ON) return ret_errno(S3(SYS_recvmsg, fd, m, fl));
    int nb = (fl & MSG_DONTWAIT) || ((int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK);
    int64_t dl = nb ? -1 : sock_deadline(fd, SO_RCVTIMEO);
    long r;
    for (;;) {
        if (fl & MSG_PEEK) {
            // looking changes nothing: a point only if it would block
            r = S3(SYS_recvmsg, fd, m, fl | MSG_DONTWAIT);
            if (r != -EAGAIN || nb) { obj_read(fdobj(fd)); self->hist = mix(self->hist, r); return ret_errno(r); }
        }
        point("recvmsg", nb ? W_NONE : W_IN, fd, dl);
        if (fault(F_EINTR_RECV)) { done_op("recvmsg", fd, -EINTR); errno = EINTR; return -1; }
        size_t cl = m->msg_controllen;
        int cut = cut_proc == self->proc && !(fl & MSG_PEEK);
        if (cut) limit_fds(cut_room);
        r = S3(SYS_recvmsg, fd, m, fl | MSG_DONTWAIT);
        if (cut) { limit_fds(-1); if (r >= 0) cut_proc = -1; }
        kver++;
        if (r == -EAGAIN && !nb && (dl < 0 || vnow < dl)) { m->msg_controllen = cl; continue; }
        break;
    }
    nrecv++;
    obj_write(fdobj(fd));
    if (r >= 0 && m->msg_control && m->msg_controllen >= sizeof(struct cmsghdr)) {
        self->op = "recvmsg(SCM_RIGHTS)";
        for (struct cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR(m, c))
            if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) {
                int n = (int)((c->cmsg_len - CMSG_LEN(0)) / sizeof(int));
                for (int i = 0; i < n; i++) {
                    int x;
                    memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x);
                    if (!(fl & MSG_PEEK)) track(x, K_OTHER);
                    else if (x >= 0) track(x, K_OTHER);
                }
            }
    }
    done_op("recvmsg", fd, r);
    return ret_errno(r);
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al) {
    if (!ON || !tracked(fd)) return ret_errno(S6(SYS_sendto, fd, b, n, fl, a, al));
    struct iovec iov = {(void *)b, n};
    struct msghdr m = {.msg_name = (void *)a, .msg_namelen = al, .msg_iov = &iov, .msg_iovlen = 1};
    return sendmsg(fd, &m, fl);
}
ssize_t send(int fd, const void *b, size_t n, int fl) { return sendto(fd, b, n, fl, 0, 0); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al) {
    if (!ON || !tracked(fd)) return ret_errno(S6(SYS_recvfrom, fd, b, n, fl, a, al));
    struct iovec iov = {b, n};
    struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1};
    return recvmsg(fd, &m, fl);
}
ssize_t recv(int fd, void *b, size_t n, int fl) { return recvfrom(fd, b, n, fl, 0, 0); }
int epoll_create1(int fl) {
    long r = S1(SYS_epoll_create1, fl);
    if (ON && r >= 0) { self->op = "epoll_create1"; track(r, K_EPOLL); }
    return (int)ret_errno(r);
}
int epoll_create(int n) { (void)n; return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    long r = S4(SYS_epoll_ctl, ep, op, fd, ev);
    if (ON) { kver++; if (tracked(fd)) obj_write(fdobj(fd)); }
    return (int)ret_errno(r);
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int to) {
    if (!ON) return (int)ret_errno(S4(SYS_epoll_wait, ep, ev, max, to));
    int64_t dl = to < 0 ? -1 : vnow + (int64_t)to * 1000000;
    long r;
    for (int i = 0;; i++) {
        int64_t intr = -1;
        if (fault_mask & F_EINTR_EPOLL) {
            // a signal interrupts only a call that sleeps, here in the middle of its wait
            struct pollfd pf = {ep, POLLIN, 0};
            if (S3(SYS_poll, &pf, 1, 0) == 0 && (dl < 0 || dl > vnow) && fault(F_EINTR_EPOLL))
                intr = dl < 0 ? vnow + 1000000000 : vnow + (dl - vnow) / 2;
        }
        point("epoll_wait", W_IN, ep, intr >= 0 ? intr : dl);
        if (intr >= 0) {
            struct pollfd pf = {ep, POLLIN, 0};
            if (S3(SYS_poll, &pf, 1, 0) == 0) { logf_("  T%d epoll_wait: injected EINTR\n", self->id); r = -EINTR; break; }
        }
        r = S4(SYS_epoll_wait, ep, ev, max, 0);
        if (r != 0 || (dl >= 0 && vnow >= dl)) break;
        if (i > 1000) finish(OUT_ENGINE, "engine", "epoll readiness without events");
    }
    done_op("epoll_wait", ep, r);
    if (r > 0)
        for (int i = 0; i < r; i++) self->hist = mix(self->hist, ev[i].events * 4096 + ev[i].data.u64);
    return (int)ret_errno(r);
}
int epoll_pwait(int ep, struct epoll_event *ev, int max, int to, const sigset_t *s) { (void)s; return epoll_wait(ep, ev, max, to); }
static int do_poll(struct pollfd *p, nfds_t n, int64_t dl) {
    self->addr = p;
    self->nfds = (int)n;
    point("poll", W_POLL, -1, dl);
    long r = S3(SYS_poll, p, n, 0);
    done_op("poll", n, r);
    return (int)ret_errno(r);
}
int poll(struct pollfd *p, nfds_t n, int to) {
    if (!ON) return (int)ret_errno(S3(SYS_poll, p, n, to));
    return do_poll(p, n, to < 0 ? -1 : vnow + (int64_t)to * 1000000);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *s) {
    if (!ON) return (int)ret_errno(S5(SYS_ppoll, p, n, ts, s, 8));
    return do_poll(p, n, ts ? add_sat(vnow, ts_ns(ts)) : -1);
}
int eventfd(unsigned v, int fl) {
    long r = S2(SYS_eventfd2, v, fl);
    if (ON && r >= 0) { self->op = "eventfd"; track(r, K_EVENT); }
    return (int)ret_errno(r);
}
ssize_t read(int fd, void *b, size_t n) {
    if (!ON || !tracked(fd)) return ret_errno(S3(SYS_read, fd, b, n));
    int nb = (int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK;
    point("read", nb ? W_NONE : W_IN, fd, -1);
    long r = S3(SYS_read, fd, b, n);
    kver++;
    obj_write(fdobj(fd));
    done_op("read", fd, r);
    return ret_errno(r);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (!ON || !tracked(fd)) return ret_errno(S3(SYS_write, fd, b, n));
    int nb = (int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK;
    point("write", nb ? W_NONE : W_OUT, fd, -1);
    long r = S3(SYS_write, fd, b, n);
    kver++;
    obj_write(fdobj(fd));
    done_op("write", fd, r);
    return ret_errno(r);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    if (!ON || !tracked(fd)) return ret_errno(S3(SYS_readv, fd, v, n));
    int nb = (int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK;
    point("readv", nb ? W_NONE : W_IN, fd, -1);
    long r = S3(SYS_readv, fd, v, n);
    kver++;
    obj_write(fdobj(fd));
    done_op("readv", fd, r);
    return ret_errno(r);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!ON || !tracked(fd)) return ret_errno(S3(SYS_writev, fd, v, n));
    int nb = (int)S3(SYS_fcntl, fd, F_GETFL, 0) & O_NONBLOCK;
    point("writev", nb ? W_NONE : W_OUT, fd, -1);
    long r = S3(SYS_writev, fd, v, n);
    kver++;
    obj_write(fdobj(fd));
    done_op("writev", fd, r);
    return ret_errno(r);
}
int close(int fd) {
    if (!ON) {
        if (active && tracked(fd)) fdi[fd].owner = -1;
        return (int)ret_errno(S1(SYS_close, fd));
    }
    int g = tracked(fd) ? fdi[fd].group : 0;
    if (fd >= 0 && fd < MAXFD && fd > 2) {
        if (fdi[fd].owner < 0) {
            if (S3(SYS_fcntl, fd, F_GETFD, 0) == -EBADF) bad_close++;
        } else {
            if (fdi[fd].owner != self->proc) bad_close++;
            if (fdi[fd].kind != K_MEM) point("close", W_NONE, fd, -1);
            fdi[fd].owner = -1;
        }
    }
    long r = S1(SYS_close, fd);
    kver++;
    obj_write(&grp_ver[g]);
    done_op("close", fd, r);
    return (int)ret_errno(r);
}
static int dup_like(long r, const char *op) {
    if (r >= 0 && ON) { self->op = op; track(r, K_OTHER); }
    return (int)ret_errno(r);
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        if (ON && fault(F_EMFILE)) { errno = EMFILE; return -1; }
        long r = S3(SYS_fcntl, fd, cmd, a);
        if (ON && r >= 0) {
            dup_like(r, "fcntl(F_DUPFD)");
            if (fd < MAXFD) { fdi[r].kind = fdi[fd].kind; fdi[r].group = fdi[fd].group; }
        }
        return (int)ret_errno(r);
    }
    return (int)ret_errno(S3(SYS_fcntl, fd, cmd, a));
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int dup(int fd) { return dup_like(S1(SYS_dup, fd), "dup"); }
int dup2(int a, int b) { return dup_like(S2(SYS_dup2, a, b), "dup2"); }
int dup3(int a, int b, int fl) { return dup_like(S3(SYS_dup3, a, b, fl), "dup3"); }
int pipe2(int p[2], int fl) {
    long r = S2(SYS_pipe2, p, fl);
    if (ON && r >= 0) { self->op = "pipe2"; track(p[0], K_OTHER); track(p[1], K_OTHER); }
    return (int)ret_errno(r);
}
int pipe(int p[2]) { return pipe2(p, 0); }

// ---------------------------------------------------------------- memory
int memfd_create(const char *name, unsigned fl) {
    if (!ON) return (int)ret_errno(S2(SYS_memfd_create, name, fl));
    self->op = "memfd_create";
    if (fault(F_NOMEM)) { errno = ENOMEM; return -1; }
    long r = S2(SYS_memfd_create, name, fl);
    if (r >= 0) track(r, K_MEM);
    return (int)ret_errno(r);
}
int ftruncate(int fd, off_t n) {
    if (ON && fault(F_NOMEM)) { errno = ENOMEM; return -1; }
    return (int)ret_errno(S2(SYS_ftruncate, fd, n));
}
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
#define MAXMAP 512
static struct { uintptr_t lo, hi; uint64_t ino, off; } maps[MAXMAP];
static uintptr_t maps_lo = ~0ull, maps_hi;
static int nmaps_live, bad_unmap;
int mc_maps(void) { return nmaps_live; }
int mc_bad_unmap(void) { return bad_unmap; }
void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) {
    if (ON && fd >= 0 && (fl & MAP_SHARED) && fault(F_NOMEM)) { errno = ENOMEM; return MAP_FAILED; }
    long r = S6(SYS_mmap, a, n, prot, fl, fd, off);
    if (ON && fd >= 0 && (fl & MAP_SHARED) && !(r < 0 && r > -4096)) {
        struct stat st;
        st.st_ino = 0;
        S2(SYS_fstat, fd, &st);
        for (int i = 0; i < MAXMAP; i++)
            if (!maps[i].hi) {
                maps[i].lo = r;
                maps[i].hi = r + ((n + 4095) & ~4095ull);
                maps[i].ino = st.st_ino;
                maps[i].off = off;
                if (maps[i].lo < maps_lo) maps_lo = maps[i].lo;
                if (maps[i].hi > maps_hi) maps_hi = maps[i].hi;
                nmaps_live++;
                break;
            }
    }
    if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
    return (void *)r;
}
void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap(a, n, prot, fl, fd, off); }
int munmap(void *a, size_t n) {
    if (ON && (uintptr_t)a >= maps_lo && (uintptr_t)a < maps_hi) {
        uintptr_t lo = (uintptr_t)a, hi = lo + ((n + 4095) & ~4095ull);
        int found = 0;
        for (int i = 0; i < MAXMAP; i++)
            if (maps[i].hi && maps[i].lo == lo) {
                if (maps[i].hi != hi) bad_unmap++;
                maps[i].hi = 0;
                nmaps_live--;
                found = 1;
                break;
            }
        if (!found)
            for (int i = 0; i < MAXMAP; i++)
                if (maps[i].hi && lo < maps[i].hi && hi > maps[i].lo) { bad_unmap++; break; }
    }
    return (int)ret_errno(S2(SYS_munmap, a, n));
}

// ---------------------------------------------------------------- atomics (thread-sanitizer run-time)
#define ATAB 8192
typedef struct { uintptr_t a; int16_t tid; uint8_t multi, wr, npc; uint16_t pcs[12]; uint64_t ver; } AEnt;
static AEnt atab[ATAB];
static uint64_t atom_base(void) {
    extern char __executable_start;
    return (uint64_t)(uintptr_t)&__executable_start;
}
static int pc_index(uint64_t pc) {
    uint32_t h = (uint32_t)(mix(7, pc) & (MC_PCTAB - 1));
    for (int i = 0; i < MC_PCTAB; i++, h = (h + 1) & (MC_PCTAB - 1)) {
        uint64_t cur = __atomic_load_n(&PT->pc[h], __ATOMIC_RELAXED);
        if (cur == pc) return h;
        if (cur == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&PT->pc[h], &z, pc, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) || z == pc) return h;
        }
    }
    return -1;
}
static void learn(int pi) {
    if (pi >= 0 && !PT->learned[pi]) {
        PT->learned[pi] = 1;
        S->newpc++;
    }
}
static AEnt *aent(uintptr_t addr) {
    uint32_t h = (uint32_t)(mix(3, addr) & (ATAB - 1));
    for (int i = 0; i < 64; i++, h = (h + 1) & (ATAB - 1)) {
        AEnt *e = &atab[h];
        if (!e->a) { e->a = addr; e->tid = self->id; }
        if (e->a == addr) return e;
    }
    return 0;
}
static uintptr_t map_key(uintptr_t a) {
    if (a < maps_lo || a >= maps_hi) return 0;
    for (int i = 0; i < MAXMAP; i++)
        if (maps[i].hi && a >= maps[i].lo && a < maps[i].hi) return mix(maps[i].ino, maps[i].off + (a - maps[i].lo)) | 1ull << 63;
    return 0;
}
static __attribute__((noinline)) void atomic_point(uintptr_t addr, uintptr_t ra, int wr, int relaxed_rmw) {
    in_engine = 1;
    uint64_t pc = ra - atom_base();
    int pi = pc_index(pc);
    uintptr_t shm = map_key(addr);
    AEnt *e = aent(shm ? shm : addr);
    if (e) {
        if (e->tid != self->id) e->multi = 1;
        if (wr) e->wr = 1;
        if (shm) learn(pi);
        else {
            int k;
            for (k = 0; k < e->npc; k++)
                if (e->pcs[k] == pi) break;
            if (k == e->npc && e->npc < 12) e->pcs[e->npc++] = pi;
            if (e->multi && e->wr) {
                learn(pi);
                for (k = 0; k < e->npc; k++) learn(e->pcs[k]);
            }
        }
    } else learn(pi);
    // relaxed counting (Arc::clone) orders nothing: not a point
    int is_point = S->atom_mode == 1 || (S->atom_mode == 2 && (shm || (!relaxed_rmw && pi >= 0 && PT->active[pi])));
    in_engine = 0;
    if (is_point) {
        S->atompoints++;
        point("atomic", W_NONE, -1, -1);
        if (S->verbose > 1) logf_("  T%d(p%d %s) atomic %s @%lx\n", self->id, self->proc, self->name, wr ? "update" : "load", (long)pc);
    }
    self->hist = mix(self->hist, pc);
    uint64_t *v = e ? &e->ver : &other_ver;
    if (wr) obj_write(v);
    else obj_read(v);
}
static void fut_obj(void *a, int wr) {
    AEnt *e = aent((uintptr_t)a);
    uint64_t *v = e ? &e->ver : &other_ver;
    if (wr) obj_write(v);
    else obj_read(v);
}
#define HV(r) do { if (active && self && sizeof(r) < 8) self->hist = mix(self->hist, (uint64_t)(r)); } while (0)
#define AP(a, wr, rel) do { if (active && self && !in_engine && S->atom_mode) atomic_point((uintptr_t)(a), (uintptr_t)__builtin_return_address(0), wr, rel); } while (0)
#define GEN(bits, ty) \
    ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { AP(a, 0, 0); ty r = __atomic_load_n(a, __ATOMIC_SEQ_CST); HV(r); return r; } \
    void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { AP(a, 1, 0); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { AP(a, 1, 0); ty r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { AP(a, 1, mo == 0); ty r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { AP(a, 1, mo == 0); ty r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { AP(a, 1, 0); ty r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { AP(a, 1, 0); ty r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { AP(a, 1, 0); ty r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_fetch_nand(volatile ty *a, ty v, int mo) { AP(a, 1, 0); ty r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); HV(r); return r; } \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { AP(a, 1, 0); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); HV(c); return c; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { AP(a, 1, 0); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); HV(r); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { AP(a, 1, 0); int r = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); HV(r); return r; }
GEN(8, uint8_t)
GEN(16, uint16_t)
GEN(32, uint32_t)
GEN(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *a) {} void __tsan_write##n(void *a) {} void __tsan_unaligned_read##n(void *a) {} void __tsan_unaligned_write##n(void *a) {} void __tsan_read_write##n(void *a) {} void __tsan_unaligned_read_write##n(void *a) {} \
    void __tsan_volatile_read##n(void *a) {} void __tsan_volatile_write##n(void *a) {} void __tsan_unaligned_volatile_read##n(void *a) {} void __tsan_unaligned_volatile_write##n(void *a) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}
void __tsan_read_range(void *a, unsigned long n) {}
void __tsan_write_range(void *a, unsigned long n) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
