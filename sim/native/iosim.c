// System-call seam of one simulated process: every file and pipe call of the
// process traps (seccomp) into a handler that performs it on the simulated
// standard streams or the real scratch files, with the planned faults.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#define API __attribute__((visibility("default")))
#define MAXFD 512
#define MAXPLAN 256

// classes of calls, as counted and planned
enum { C_READ, C_WRITE, C_OPEN, C_CLOSE, C_SEEK, C_STAT, C_SYNC, C_NAME, C_N };
// what happens to a call
enum { A_ERR = 1, A_SHORT = 2, A_CRASH = 3, A_CRASH_AFTER = 4, A_EOF = 5 };

typedef struct { int cls, at, act; long arg; } Plan;
typedef struct { int cls, file, req, res; uint64_t clock; uint64_t off; } Event;   // file: 0 stdin, 1 stdout, 2.. paths

typedef struct {
    uint64_t n_ev, cap_ev, n_out, cap_out, n_trap, n_short, n_eintr, n_err, n_crash, n_full, blocked, lost_in;
    int count[C_N];
    char name[64][96];                  // of opened files
} Head;

static Head *H;
static Event *EV;
static uint8_t *OUT;
static Plan plan[MAXPLAN];
static int nplan;
static char prefix[512];
static size_t nprefix;
static int subject[MAXFD];              // 0: not simulated, else file number + 1
static int nfiles;
static const uint8_t *in_buf;
static size_t in_len, in_pos;
static int in_open;                     // the writer keeps the pipe open after the last byte
static uint64_t rs;
static int frag_in, frag_out, frag_file;   // 0 whole, else largest fragment
static int eintr_ppm;
static long disk_left = -1;
static uint64_t (*clock_fn)(void);
static uint64_t now(void) { return clock_fn ? clock_fn() : 0; }

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

// the only place real calls are made from; the filter lets this range pass
__asm__(".text\n.balign 4096\n.globl iosim_gate\n.hidden iosim_gate\niosim_gate:\n"
        "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\nmov 8(%rsp),%r9\nsyscall\nret\n"
        ".balign 4096\n");
extern long iosim_gate(long nr, long a, long b, long c, long d, long e, long f);

static void log_ev(int cls, int file, long req, long res, uint64_t off) {
    if (H->n_ev < H->cap_ev) EV[H->n_ev++] = (Event) {cls, file, (int) req, (int) res, now(), off};
}

static int under(const char *p) {
    if (!nprefix) return 0;
    char abs[2048];
    if (p[0] != '/') {
        long n = iosim_gate(SYS_getcwd, (long) abs, sizeof abs, 0, 0, 0, 0);
        if (n <= 0) return 0;
        size_t l = strlen(abs);
        if (l + strlen(p) + 2 > sizeof abs) return 0;
        abs[l] = '/';
        strcpy(abs + l + 1, p);
        p = abs;
    }
    return strncmp(p, prefix, nprefix) == 0;
}

static Plan *due(int cls, int k) {
    for (int i = 0; i < nplan; i++)
        if (plan[i].cls == cls && plan[i].at == k) return &plan[i];
    return 0;
}

static void die(void) { H->n_crash++; iosim_gate(SYS_exit_group, 77, 0, 0, 0, 0, 0); }

static size_t fragment(size_t n, int limit) {
    if (!limit || n <= 1) return n;
    size_t m = 1 + rnd() % (uint64_t) limit;
    if (m < n) { H->n_short++; return m; }
    return n;
}

static long do_read(int fd, uint8_t *buf, size_t n) {
    int file = subject[fd] - 1;
    int k = H->count[C_READ]++;
    Plan *p = due(C_READ, k);
    if (p && p->act == A_CRASH) die();
    if (p && p->act == A_ERR) { if (p->arg == EINTR) H->n_eintr++; else H->n_err++; log_ev(C_READ, file, n, -p->arg, 0); return -p->arg; }
    if (p && p->act == A_EOF) { H->n_err++; H->lost_in = 1; in_pos = in_len; in_open = 0; if (file) return 0; }
    if (eintr_ppm && (int) (rnd() % 1000000) < eintr_ppm) { H->n_eintr++; return -EINTR; }
    if (p && p->act == A_SHORT && n > 1) { H->n_short++; n = 1; }
    long r;
    if (file == 0) {
        size_t m = in_len - in_pos;
        if (m > n) m = n;
        m = fragment(m, frag_in);
        if (!m && n && in_open) { H->blocked = 1; iosim_gate(SYS_exit_group, 78, 0, 0, 0, 0, 0); }
        memcpy(buf, in_buf + in_pos, m);
        in_pos += m;
        r = m;
    } else
        r = iosim_gate(SYS_read, fd, (long) buf, fragment(n, frag_file), 0, 0, 0);
    log_ev(C_READ, file, n, r, 0);
    if (p && p->act == A_CRASH_AFTER) die();
    return r;
}

static long do_write(int fd, const uint8_t *buf, size_t n) {
    int file = subject[fd] - 1;
    int k = H->count[C_WRITE]++;
    Plan *p = due(C_WRITE, k);
    if (p && p->act == A_CRASH) die();
    if (p && p->act == A_ERR) { if (p->arg == EINTR) H->n_eintr++; else H->n_err++; log_ev(C_WRITE, file, n, -p->arg, 0); return -p->arg; }
    if (eintr_ppm && (int) (rnd() % 1000000) < eintr_ppm && (file != 1)) { H->n_eintr++; return -EINTR; }
    if (p && p->act == A_SHORT && n > 1) { H->n_short++; n = p->arg > 0 && (size_t) p->arg < n ? (size_t) p->arg : 1; }
    n = fragment(n, file == 1 ? frag_out : frag_file);
    long r;
    uint64_t off = 0;
    if (file == 1) {
        off = H->n_out;
        r = n;
        for (size_t i = 0; i < n && H->n_out < H->cap_out; i++) OUT[H->n_out++] = buf[i];
    } else {
        if (disk_left >= 0) {
            if (disk_left == 0 && n) { H->n_full++; log_ev(C_WRITE, file, n, -ENOSPC, 0); return -ENOSPC; }
            if ((long) n > disk_left) { n = disk_left; H->n_full++; }
        }
        r = iosim_gate(SYS_write, fd, (long) buf, n, 0, 0, 0);
        if (disk_left >= 0 && r > 0) disk_left -= r;
    }
    log_ev(C_WRITE, file, n, r, off);
    if (p && p->act == A_CRASH_AFTER) die();
    return r;
}

// a call without special treatment: fail, crash, or let it happen
static int refuse(int cls, int file, long *r) {
    int k = H->count[cls]++;
    Plan *p = due(cls, k);
    if (p && p->act == A_CRASH) die();
    if (p && p->act == A_ERR) {
        if (p->arg == EINTR) H->n_eintr++; else H->n_err++;
        *r = -p->arg;
        log_ev(cls, file, 0, *r, 0);
        return 1;
    }
    return 0;
}

static long call(long nr, long *a) {
    long r;
    int fd = (int) a[0];
    int sub = fd >= 0 && fd < MAXFD ? subject[fd] : 0;
#define REAL() iosim_gate(nr, a[0], a[1], a[2], a[3], a[4], a[5])
    switch (nr) {
    case SYS_read: return sub ? do_read(fd, (uint8_t *) a[1], a[2]) : REAL();
    case SYS_write: return sub ? do_write(fd, (const uint8_t *) a[1], a[2]) : REAL();
    case SYS_readv: case SYS_writev:
        if (!sub) return REAL();
        {
            const struct iovec *v = (const struct iovec *) a[1];
            long total = 0;
            for (int i = 0; i < (int) a[2]; i++) {
                if (!v[i].iov_len) continue;
                long x = nr == SYS_readv ? do_read(fd, v[i].iov_base, v[i].iov_len) : do_write(fd, v[i].iov_base, v[i].iov_len);
                if (x < 0) return total ? total : x;
                total += x;
                if ((size_t) x < v[i].iov_len) break;
            }
            return total;
        }
    case SYS_open: case SYS_openat: case SYS_creat: {
        const char *path = (const char *) (nr == SYS_openat ? a[1] : a[0]);
        if (!under(path)) return REAL();
        if (refuse(C_OPEN, nfiles + 2, &r)) return r;
        r = REAL();
        if (r >= 0 && r < MAXFD) {
            subject[r] = nfiles + 3;
            const char *b = strrchr(path, '/');
            if (nfiles < 64) strncpy(H->name[nfiles], b ? b + 1 : path, 95);
            log_ev(C_OPEN, nfiles + 2, (int) (nr == SYS_openat ? a[2] : a[1]), r, H->n_out);
            nfiles++;
        }
        Plan *p = due(C_OPEN, H->count[C_OPEN] - 1);
        if (p && p->act == A_CRASH_AFTER) die();
        return r;
    }
    case SYS_close:
        if (!sub) return REAL();
        if (sub > 2 && refuse(C_CLOSE, sub - 1, &r)) { REAL(); subject[fd] = 0; return r; }   // the descriptor is gone all the same
        r = REAL();
        log_ev(C_CLOSE, sub - 1, 0, r, 0);
        subject[fd] = 0;
        if (sub > 2) {
            Plan *p = due(C_CLOSE, H->count[C_CLOSE] - 1);
            if (p && p->act == A_CRASH_AFTER) die();
        }
        return r;
    case SYS_dup: case SYS_fcntl:
        r = REAL();
        if (sub && r >= 0 && r < MAXFD && (nr == SYS_dup || a[1] == F_DUPFD || a[1] == F_DUPFD_CLOEXEC)) subject[r] = sub;
        return r;
    case SYS_dup2: case SYS_dup3:
        r = REAL();
        if (r >= 0 && r < MAXFD) subject[r] = sub;
        return r;
    case SYS_lseek:
        if (sub <= 2) return REAL();
        if (refuse(C_SEEK, sub - 1, &r)) return r;
        return REAL();
    case SYS_fstat:
        if (sub <= 2) return REAL();
        if (refuse(C_STAT, sub - 1, &r)) return r;
        return REAL();
    case SYS_newfstatat: {
        const char *path = (const char *) a[1];
        if (path && path[0]) {
            if (!under(path)) return REAL();
        } else if (sub <= 2) return REAL();
        if (refuse(C_STAT, -1, &r)) return r;
        return REAL();
    }
    case SYS_fsync: case SYS_fdatasync: case SYS_ftruncate:
        if (sub <= 2) return REAL();
        if (refuse(C_SYNC, sub - 1, &r)) return r;
        return REAL();
    case SYS_rename: case SYS_unlink: case SYS_truncate:
        if (!under((const char *) a[0])) return REAL();
        if (refuse(C_NAME, -1, &r)) return r;
        r = REAL();
        { Plan *p = due(C_NAME, H->count[C_NAME] - 1); if (p && p->act == A_CRASH_AFTER) die(); }
        return r;
    case SYS_renameat: case SYS_renameat2: case SYS_unlinkat:
        if (!under((const char *) a[1])) return REAL();
        if (refuse(C_NAME, -1, &r)) return r;
        r = REAL();
        { Plan *p = due(C_NAME, H->count[C_NAME] - 1); if (p && p->act == A_CRASH_AFTER) die(); }
        return r;
    case SYS_pread64: case SYS_pwrite64:
        if (sub <= 2) return REAL();
        if (refuse(nr == SYS_pread64 ? C_READ : C_WRITE, sub - 1, &r)) return r;
        return REAL();
    case SYS_copy_file_range: case SYS_sendfile: case SYS_splice:
        return -ENOSYS;      // callers fall back on read and write
    }
    return REAL();
}

static void on_sys(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = uc_;
    greg_t *g = uc->uc_mcontext.gregs;
    int e = errno;
    long a[6] = {g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]};
    H->n_trap++;
    g[REG_RAX] = call(si->si_syscall, a);
    errno = e;
}

static const int NRS[] = {SYS_read, SYS_write, SYS_readv, SYS_writev, SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_dup, SYS_fcntl, SYS_dup2, SYS_dup3,
    SYS_lseek, SYS_fstat, SYS_newfstatat, SYS_fsync, SYS_fdatasync, SYS_ftruncate, SYS_rename, SYS_unlink, SYS_truncate, SYS_renameat, SYS_renameat2, SYS_unlinkat,
    SYS_pread64, SYS_pwrite64, SYS_copy_file_range, SYS_sendfile, SYS_splice};

API void iosim_setup(void *mem, uint64_t cap_ev, uint64_t cap_out, const char *dir, uint64_t seed, int f_in, int f_out, int f_file, int ppm, long disk, void *clk) {
    H = mem;
    memset(H, 0, sizeof *H);
    H->cap_ev = cap_ev; H->cap_out = cap_out;
    EV = (Event *) (H + 1);
    OUT = (uint8_t *) (EV + cap_ev);
    strncpy(prefix, dir, sizeof prefix - 1);
    nprefix = strlen(prefix);
    rs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; rnd(); rnd();
    frag_in = f_in; frag_out = f_out; frag_file = f_file; eintr_ppm = ppm; disk_left = disk;
    clock_fn = (uint64_t (*)(void)) clk;
    nplan = 0; nfiles = 0; in_len = in_pos = 0;
    memset(subject, 0, sizeof subject);
}
API void iosim_plan(int cls, int at, int act, long arg) { if (nplan < MAXPLAN) plan[nplan++] = (Plan) {cls, at, act, arg}; }
API void iosim_stdin(const void *b, size_t n, int open_end) { in_buf = b; in_len = n; in_open = open_end; }
API size_t iosim_sizes(int i) { return i ? sizeof(Event) : sizeof(Head); }
API void iosim_prefix(const char *dir) { strncpy(prefix, dir, sizeof prefix - 1); nprefix = strlen(prefix); }
API size_t iosim_left(void) { return in_len - in_pos; }

API int iosim_install(void) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, 0)) return -1;
    subject[0] = 1; subject[1] = 2;
    uint64_t lo = (uint64_t) (uintptr_t) iosim_gate;
    struct sock_filter f[128];
    int n = 0, N = sizeof NRS / sizeof *NRS;
    f[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
    f[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) (lo >> 32), 0, 4);
    f[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
    f[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JGE | BPF_K, (uint32_t) lo, 0, 2);
    f[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JGT | BPF_K, (uint32_t) lo + 64, 1, 0);
    f[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < N; i++)
        f[n++] = (struct sock_filter) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) NRS[i], N - i, 0);
    f[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter) BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog p = {n, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -2;
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) return -3;
    return 0;
}
