#include "cli.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <ctime>
#include <fcntl.h>
#include <getopt.h>
#include <sys/time.h>

using namespace sim;
extern "C" int cli_main(int argc, char **argv);

namespace cli {
struct Fd { std::string name; std::shared_ptr<std::vector<uint8_t>> d; size_t off = 0; bool rd = false, wr = false, open = false, isout = false, append = false; };
struct SFile {
    int fd = -1; bool rd = false, wr = false, live = false;
    std::vector<uint8_t> buf; size_t pos = 0, len = 0;   // read: [pos,len); write: [0,len)
    bool reading = false, writing = false, eof = false, err = false;
    int mode = 0;                                        // 0 full, 1 line, 2 none
};
static const size_t BUFSZ = 4096;
struct Proc {
    Disk *d = nullptr; Cfg c; Result r; Rng rng;
    std::deque<Fd> fds;
    std::vector<std::unique_ptr<SFile>> files;
    uint64_t vt = 0, used = 0;
    jmp_buf jb; bool running = false;
    void (*handler[65])(int) = {};
    std::vector<void (*)(void)> atexits;
    uint64_t out_total = 0;
};
static Proc *P = nullptr;

uint64_t sim_first() { return P ? P->r.t_first : 0; }
uint64_t sim_ns() { return P ? 1000000000000ull + P->vt + now() * P->c.ns_step : 0; }

static void deliver() {
    if (!P || P->r.signalled || !P->running) return;
    int s = P->handler[SIGINT] ? SIGINT : SIGTERM;
    if (!P->handler[s]) return;
    P->r.signalled = true;
    P->r.logical_at_sig = P->r.logical;
    auto h = P->handler[s];
    LibScope ls;
    h(s);
}
static void io_step() {
    P->r.io_ops++;
    P->vt += P->rng.next() % (P->c.ns_io + 1);
    if (P->c.stall_den && P->rng.chance(1, P->c.stall_den)) {
        P->vt += P->c.stall_ns;
        for (int i = P->rng.range(1, 40); i--;) point(K_CB);
    }
    point(K_CB);
    if (P->c.sig_from >= 0 && !P->r.signalled && now() >= (uint64_t)P->c.sig_from) deliver();
}
static bool wanted(const std::string &n) { return n.find("frametimes") == std::string::npos; }

// ---- system calls
static int sys_open(const char *name, int flags) { // O_RDONLY / O_WRONLY|O_CREAT|O_TRUNC ...
    io_step();
    bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY;
    if (wanted(name) && fault(F_IO)) { P->r.f_open++; P->r.lost++; errno = wr ? (P->rng.chance(1, 2) ? ENOSPC : EACCES) : (P->rng.chance(1, 2) ? EIO : EMFILE); return -1; }
    auto it = P->d->f.find(name);
    if (it == P->d->f.end()) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        it = P->d->f.emplace(name, std::make_shared<std::vector<uint8_t>>()).first;
    }
    if (flags & O_TRUNC) it->second->clear();
    for (size_t i = 3; i < P->fds.size() + 1; i++) {
        if (i == P->fds.size()) P->fds.emplace_back();
        Fd &f = P->fds[i];
        if (f.open) continue;
        f = Fd();
        f.name = name; f.d = it->second; f.rd = rd; f.wr = wr; f.open = true; f.append = flags & O_APPEND;
        f.isout = wr && wanted(name);
        return (int)i;
    }
    errno = EMFILE;
    return -1;
}
static Fd *fd_get(int fd) {
    if (fd < 0 || fd >= (int)P->fds.size() || !P->fds[fd].open) { errno = EBADF; return nullptr; }
    return &P->fds[fd];
}
static ssize_t sys_read(int fd, void *b, size_t n) {
    Fd *f = fd_get(fd);
    if (!f || !f->rd) { errno = EBADF; return -1; }
    io_step();
    if (wanted(f->name) && fault(F_IO)) { P->r.f_read++; P->r.lost++; errno = EIO; return -1; }
    size_t have = f->d && f->off < f->d->size() ? f->d->size() - f->off : 0;
    size_t k = n < have ? n : have;
    if (P->c.rd_chunk && k > 1 && P->r.short_reads < 3000) { size_t m = 1 + P->rng.below(P->c.rd_chunk); if (m < k) { k = m; P->r.short_reads++; } }
    if (k) memcpy(b, f->d->data() + f->off, k);
    f->off += k;
    return (ssize_t)k;
}
static ssize_t sys_write(int fd, const void *b, size_t n) {
    Fd *f = fd_get(fd);
    if (!f || !f->wr) { errno = EBADF; return -1; }
    if (fd == 2) { if (P->d->err.size() < 65536) P->d->err.append((const char *)b, n); return (ssize_t)n; }
    io_step();
    bool count = wanted(f->name);
    if (count && fault(F_IO)) { P->r.f_write++; P->r.lost++; errno = P->rng.chance(1, 2) ? EIO : ENOSPC; return -1; }
    size_t k = n;
    if (P->c.wr_chunk && k > 1 && P->r.short_writes < 3000) { size_t m = 1 + P->rng.below(P->c.wr_chunk); if (m < k) { k = m; P->r.short_writes++; } }
    if (fd != 1 && P->used + k > P->c.space) { // disk full: what fits is written first
        k = P->c.space > P->used ? P->c.space - P->used : 0;
        P->r.full++;
        if (!k) { if (count) P->r.lost++; errno = ENOSPC; return -1; }
    }
    if (fd == 1) P->d->out.insert(P->d->out.end(), (const uint8_t *)b, (const uint8_t *)b + k);
    else {
        if (f->append) f->off = f->d->size();
        if (f->d->size() < f->off + k) f->d->resize(f->off + k);
        memcpy(f->d->data() + f->off, b, k);
        f->off += k;
        P->used += k;
    }
    if (f->isout) { P->out_total += k; if (P->c.on_out) P->c.on_out(P->out_total); }
    return (ssize_t)k;
}
static off_t sys_lseek(int fd, off_t o, int wh) {
    Fd *f = fd_get(fd);
    if (!f) return -1;
    if (fd < 3 || (P->c.in_pipe && f->rd)) { errno = ESPIPE; return -1; }
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->off : (off_t)f->d->size();
    if (base + o < 0) { errno = EINVAL; return -1; }
    P->r.last_seek = now();
    f->off = (size_t)(base + o);
    return base + o;
}
static int sys_close(int fd) {
    Fd *f = fd_get(fd);
    if (!f) return -1;
    io_step();
    f->open = false;
    if (f->wr && wanted(f->name) && fault(F_IO)) { P->r.f_close++; P->r.lost++; errno = EIO; return -1; }
    return 0;
}

// ---- stdio (semantics of the GNU C library)
static SFile *sf(void *p) {
    for (auto &x : P->files) if (x.get() == p) {
        if (!x->live) fail("stdio-misuse", "use of a closed stream");
        return x.get();
    }
    fail("stdio-misuse", "use of an invalid stream");
}
static bool flush_w(SFile *f) { // false: error; what was not written is lost
    size_t o = 0;
    bool ok = true;
    while (o < f->len) {
        ssize_t k = sys_write(f->fd, f->buf.data() + o, f->len - o);
        if (k < 0) { ok = false; f->err = true; break; }
        o += (size_t)k;
    }
    f->len = 0;
    return ok;
}
static void to_write(SFile *f) {
    if (f->reading) { sys_lseek(f->fd, (off_t)f->pos - (off_t)f->len, SEEK_CUR); f->reading = false; f->pos = f->len = 0; }
    f->writing = true;
}
static size_t s_write(SFile *f, const uint8_t *b, size_t n) {
    if (!f->wr) { f->err = true; errno = EBADF; return 0; }
    to_write(f);
    Fd *fd = fd_get(f->fd);
    if (fd && fd->isout) P->r.logical += n;
    size_t done = 0;
    if (f->mode == 2) {
        while (done < n) { ssize_t k = sys_write(f->fd, b + done, n - done); if (k < 0) { f->err = true; return done; } done += (size_t)k; }
        return done;
    }
    while (done < n) {
        size_t k = std::min(n - done, BUFSZ - f->len);
        if (f->buf.size() < BUFSZ) f->buf.resize(BUFSZ);
        memcpy(f->buf.data() + f->len, b + done, k);
        f->len += k; done += k;
        if (f->len == BUFSZ && done < n && !flush_w(f)) return done > k ? done - k : 0;
    }
    if (f->mode == 1 && memchr(b, '\n', n) && !flush_w(f)) return 0;
    return done;
}
static size_t s_read(SFile *f, uint8_t *b, size_t n) {
    if (!f->rd) { f->err = true; errno = EBADF; return 0; }
    if (f->writing) { flush_w(f); f->writing = false; }
    f->reading = true;
    size_t done = 0;
    while (done < n) {
        if (f->pos < f->len) {
            size_t k = std::min(n - done, f->len - f->pos);
            memcpy(b + done, f->buf.data() + f->pos, k);
            f->pos += k; done += k;
            continue;
        }
        if (f->eof) break;
        if (f->buf.size() < BUFSZ) f->buf.resize(BUFSZ);
        f->pos = f->len = 0;
        ssize_t k = n - done >= BUFSZ ? sys_read(f->fd, b + done, (n - done) / BUFSZ * BUFSZ) : sys_read(f->fd, f->buf.data(), BUFSZ);
        if (k < 0) { f->err = true; break; }
        if (k == 0) { f->eof = true; break; }
        if (n - done >= BUFSZ) done += (size_t)k; else f->len = (size_t)k;
    }
    return done;
}
static int s_flush(SFile *f) { if (f->writing) return flush_w(f) ? 0 : -1; return 0; }
static int s_close(SFile *f) {
    int rc = 0;
    if (f->writing && !flush_w(f)) rc = -1;
    if (sys_close(f->fd) < 0) rc = -1;
    f->live = false;
    return rc;
}
static SFile *s_make(int fd, bool rd, bool wr, int mode) {
    P->files.push_back(std::make_unique<SFile>());
    SFile *f = P->files.back().get();
    f->fd = fd; f->rd = rd; f->wr = wr; f->live = true; f->mode = mode;
    return f;
}
static SFile *s_open(const char *name, const char *mode) {
    int fl = mode[0] == 'r' ? O_RDONLY : mode[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = sys_open(name, fl);
    if (fd < 0) return nullptr;
    return s_make(fd, (fl & O_ACCMODE) != O_WRONLY, (fl & O_ACCMODE) != O_RDONLY, 0);
}
static int s_seek(SFile *f, off_t o, int wh) {
    if (f->writing) { if (!flush_w(f)) return -1; f->writing = false; }
    if (wh == SEEK_CUR && f->reading) o += (off_t)f->pos - (off_t)f->len;
    if (sys_lseek(f->fd, o, wh) < 0) return -1;
    f->pos = f->len = 0; f->eof = false; f->reading = false;
    return 0;
}
static off_t s_tell(SFile *f) {
    off_t o = sys_lseek(f->fd, 0, SEEK_CUR);
    if (o < 0) return -1;
    return f->reading ? o - (off_t)(f->len - f->pos) : f->writing ? o + (off_t)f->len : o;
}
[[noreturn]] static void leave(int code) { P->r.code = code & 255; P->r.exited = true; longjmp(P->jb, 1); }
static int s_vprintf(SFile *f, const char *fmt, va_list ap) {
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, fmt, ap2);
    va_end(ap2);
    if (n < 0) return n;
    std::vector<char> b(n + 1);
    vsnprintf(b.data(), n + 1, fmt, ap);
    return s_write(f, (const uint8_t *)b.data(), n) == (size_t)n ? n : -1;
}
} // namespace cli

using namespace cli;
#define HS HarnessScope hs_
extern "C" {
void *sim_io_stdin, *sim_io_stdout, *sim_io_stderr;
void *sim_io_fopen(const char *n, const char *m) { HS; return s_open(n, m); }
void *sim_io_fopen64(const char *n, const char *m) { HS; return s_open(n, m); }
void *sim_io_freopen(const char *n, const char *m, void *f) { HS; if (!n) return f; s_close(sf(f)); return s_open(n, m); }
void *sim_io_fdopen(int fd, const char *m) { HS; return s_make(fd, m[0] == 'r' || strchr(m, '+'), m[0] != 'r' || strchr(m, '+'), 0); }
int sim_io_fclose(void *f) { HS; return s_close(sf(f)); }
size_t sim_io_fread(void *b, size_t s, size_t n, void *f) { HS; SFile *x = sf(f); return s * n ? s_read(x, (uint8_t *)b, s * n) / s : 0; }
size_t sim_io_fread_unlocked(void *b, size_t s, size_t n, void *f) { return sim_io_fread(b, s, n, f); }
size_t sim_io_fread_chk(void *b, size_t, size_t s, size_t n, void *f) { return sim_io_fread(b, s, n, f); }
size_t sim_io_fwrite(const void *b, size_t s, size_t n, void *f) { HS; SFile *x = sf(f); return s * n ? s_write(x, (const uint8_t *)b, s * n) / s : 0; }
size_t sim_io_fwrite_unlocked(const void *b, size_t s, size_t n, void *f) { return sim_io_fwrite(b, s, n, f); }
int sim_io_vfprintf(void *f, const char *fmt, va_list ap) { HS; return s_vprintf(sf(f), fmt, ap); }
int sim_io_vfprintf_chk(void *f, int, const char *fmt, va_list ap) { HS; return s_vprintf(sf(f), fmt, ap); }
int sim_io_vprintf(const char *fmt, va_list ap) { HS; return s_vprintf(sf(sim_io_stdout), fmt, ap); }
int sim_io_fprintf(void *f, const char *fmt, ...) { HS; va_list ap; va_start(ap, fmt); int r = s_vprintf(sf(f), fmt, ap); va_end(ap); return r; }
int sim_io_fprintf_chk(void *f, int, const char *fmt, ...) { HS; va_list ap; va_start(ap, fmt); int r = s_vprintf(sf(f), fmt, ap); va_end(ap); return r; }
int sim_io_printf(const char *fmt, ...) { HS; va_list ap; va_start(ap, fmt); int r = s_vprintf(sf(sim_io_stdout), fmt, ap); va_end(ap); return r; }
int sim_io_printf_chk(int, const char *fmt, ...) { HS; va_list ap; va_start(ap, fmt); int r = s_vprintf(sf(sim_io_stdout), fmt, ap); va_end(ap); return r; }
int sim_io_fputs(const char *s, void *f) { HS; size_t n = strlen(s); return s_write(sf(f), (const uint8_t *)s, n) == n ? 1 : -1; }
int sim_io_fputs_unlocked(const char *s, void *f) { return sim_io_fputs(s, f); }
int sim_io_fputc(int c, void *f) { HS; uint8_t b = (uint8_t)c; return s_write(sf(f), &b, 1) == 1 ? b : -1; }
int sim_io_fputc_unlocked(int c, void *f) { return sim_io_fputc(c, f); }
int sim_io_putc(int c, void *f) { return sim_io_fputc(c, f); }
int sim_io_putchar(int c) { return sim_io_fputc(c, sim_io_stdout); }
int sim_io_puts(const char *s) { return sim_io_fputs(s, sim_io_stdout) < 0 ? -1 : sim_io_fputc('\n', sim_io_stdout) < 0 ? -1 : 1; }
int sim_io_fgetc(void *f) { HS; uint8_t b; return s_read(sf(f), &b, 1) == 1 ? b : -1; }
int sim_io_getc(void *f) { return sim_io_fgetc(f); }
int sim_io_getc_unlocked(void *f) { return sim_io_fgetc(f); }
char *sim_io_fgets(char *s, int n, void *f) { HS;
    SFile *x = sf(f); int i = 0;
    while (i < n - 1) { uint8_t b; if (s_read(x, &b, 1) != 1) break; s[i++] = (char)b; if (b == '\n') break; }
    if (!i) return nullptr;
    s[i] = 0;
    return s;
}
int sim_io_ungetc(int c, void *f) { HS;
    SFile *x = sf(f);
    if (c < 0) return -1;
    if (x->pos > 0 && x->reading) { x->buf[--x->pos] = (uint8_t)c; x->eof = false; return c; }
    x->buf.insert(x->buf.begin(), (uint8_t)c); x->len++; x->reading = true; x->eof = false;
    return c;
}
int sim_io_fseeko(void *f, off_t o, int w) { HS; return s_seek(sf(f), o, w); }
int sim_io_fseeko64(void *f, off_t o, int w) { HS; return s_seek(sf(f), o, w); }
int sim_io_fseek(void *f, long o, int w) { HS; return s_seek(sf(f), o, w); }
off_t sim_io_ftello(void *f) { HS; return s_tell(sf(f)); }
off_t sim_io_ftello64(void *f) { HS; return s_tell(sf(f)); }
long sim_io_ftell(void *f) { HS; return s_tell(sf(f)); }
void sim_io_rewind(void *f) { HS; s_seek(sf(f), 0, SEEK_SET); sf(f)->err = false; }
int sim_io_fflush(void *f) { HS;
    if (f) return s_flush(sf(f));
    int rc = 0;
    for (size_t i = 0; i < P->files.size(); i++) if (P->files[i]->live && s_flush(P->files[i].get())) rc = -1;
    return rc;
}
int sim_io_fflush_unlocked(void *f) { return sim_io_fflush(f); }
int sim_io_feof(void *f) { HS; return sf(f)->eof; }
int sim_io_feof_unlocked(void *f) { HS; return sf(f)->eof; }
int sim_io_ferror(void *f) { HS; return sf(f)->err; }
int sim_io_ferror_unlocked(void *f) { HS; return sf(f)->err; }
void sim_io_clearerr(void *f) { HS; SFile *x = sf(f); x->err = x->eof = false; }
int sim_io_setvbuf(void *f, char *, int m, size_t) { HS; sf(f)->mode = m == _IONBF ? 2 : m == _IOLBF ? 1 : 0; return 0; }
void sim_io_setbuf(void *f, char *b) { HS; sf(f)->mode = b ? 0 : 2; }
int sim_io_fileno(void *f) { HS; return sf(f)->fd; }
int sim_io_fileno_unlocked(void *f) { HS; return sf(f)->fd; }
int sim_io_isatty(int fd) { HS; return fd == 1 ? P->c.out_tty : fd == 2 ? P->c.err_tty : 0; }
void sim_io_perror(const char *s) { sim_io_fprintf(sim_io_stderr, "%s: %s\n", s, strerror(errno)); }
int sim_io_unlink(const char *n) { HS; io_step(); if (!P->d->f.erase(n)) { errno = ENOENT; return -1; } return 0; }
int sim_io_remove(const char *n) { return sim_io_unlink(n); }
int sim_io_rename(const char *a, const char *b) { HS; io_step(); auto i = P->d->f.find(a); if (i == P->d->f.end()) { errno = ENOENT; return -1; } P->d->f[b] = i->second; P->d->f.erase(a); return 0; }
int sim_io_open(const char *n, int fl, ...) { HS; return sys_open(n, fl); }
int sim_io_open64(const char *n, int fl, ...) { HS; return sys_open(n, fl); }
int sim_io_creat(const char *n, int) { HS; return sys_open(n, O_WRONLY | O_CREAT | O_TRUNC); }
ssize_t sim_io_read(int fd, void *b, size_t n) { HS; return sys_read(fd, b, n); }
ssize_t sim_io_write(int fd, const void *b, size_t n) { HS; return sys_write(fd, b, n); }
ssize_t sim_io_pread(int fd, void *b, size_t n, off_t o) { HS; Fd *f = fd_get(fd); if (!f) return -1; size_t s = f->off; f->off = o; ssize_t r = sys_read(fd, b, n); P->fds[fd].off = s; return r; }
ssize_t sim_io_pwrite(int fd, const void *b, size_t n, off_t o) { HS; Fd *f = fd_get(fd); if (!f) return -1; size_t s = f->off; f->off = o; ssize_t r = sys_write(fd, b, n); P->fds[fd].off = s; return r; }
off_t sim_io_lseek(int fd, off_t o, int w) { HS; return sys_lseek(fd, o, w); }
off_t sim_io_lseek64(int fd, off_t o, int w) { HS; return sys_lseek(fd, o, w); }
int sim_io_close(int fd) { HS; return sys_close(fd); }
int sim_io_fsync(int fd) { HS; if (!fd_get(fd)) return -1; io_step(); return 0; }
int sim_io_fdatasync(int fd) { return sim_io_fsync(fd); }
int sim_io_ftruncate(int fd, off_t n) { HS; Fd *f = fd_get(fd); if (!f || !f->d) return -1; f->d->resize(n); return 0; }

static void now_ts(struct timespec *t) { uint64_t n = sim_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; }
int sim_io_clock_gettime(clockid_t, struct timespec *t) { HS;
    io_step();
    if (!P->r.clock_reads++) P->r.t_first = sim_ns();
    now_ts(t);
    return 0;
}
int sim_io_gettimeofday(struct timeval *t, void *) { HS; struct timespec s; sim_io_clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t sim_io_time(time_t *t) { struct timespec s; sim_io_clock_gettime(0, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int sim_io_nanosleep(const struct timespec *d, struct timespec *rem) { HS;
    if (d->tv_nsec < 0 || d->tv_nsec > 999999999 || d->tv_sec < 0) { P->r.bad_sleeps++; errno = EINVAL; return -1; }
    uint64_t n = (uint64_t)d->tv_sec * 1000000000 + d->tv_nsec;
    P->r.sleeps++; P->r.slept_ns += n; P->r.max_sleep_ns = std::max(P->r.max_sleep_ns, n);
    bool was = P->r.signalled;
    for (int i = P->rng.range(1, 20); i--;) point(K_CB);
    if (P->c.sig_from >= 0 && !P->r.signalled && now() >= (uint64_t)P->c.sig_from) deliver();
    if (!was && P->r.signalled) { // woken by the signal
        uint64_t part = P->rng.next() % (n + 1);
        P->vt += part;
        if (rem) { rem->tv_sec = (n - part) / 1000000000; rem->tv_nsec = (n - part) % 1000000000; }
        errno = EINTR;
        return -1;
    }
    P->vt += n;
    if (P->c.oversleep) P->vt += P->rng.next() % 30000000;
    return 0;
}
int sim_io_clock_nanosleep(clockid_t, int, const struct timespec *d, struct timespec *rem) { return sim_io_nanosleep(d, rem) ? errno : 0; }
int sim_io_usleep(unsigned us) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return sim_io_nanosleep(&t, nullptr); }
unsigned sim_io_sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; sim_io_nanosleep(&t, nullptr); return 0; }
int sim_io_sigaction(int s, const struct sigaction *a, struct sigaction *o) { HS;
    if (s < 1 || s > 64) { errno = EINVAL; return -1; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = P->handler[s]; }
    if (a) { P->handler[s] = a->sa_handler; P->r.sig_installed = true; }
    return 0;
}
typedef void (*sigh)(int);
sigh sim_io_signal(int s, sigh h) { HS; if (s < 1 || s > 64) return SIG_ERR; sigh o = P->handler[s]; P->handler[s] = h; P->r.sig_installed = true; return o; }
int sim_io_raise(int s) { if (s >= 1 && s <= 64 && P->handler[s]) P->handler[s](s); return 0; }
int sim_io_atexit(void (*f)(void)) { P->atexits.push_back(f); return 0; }
void sim_io_exit(int c) { leave(c); }
void sim_io__exit(int c) { P->files.clear(); leave(c); }
void sim_io_quick_exit(int c) { P->files.clear(); leave(c); }
}

namespace cli {
Result run_tool(const std::vector<std::string> &args, Disk &d, const Cfg &c) {
    std::vector<std::string> store = args;
    std::vector<char *> argv;
    for (auto &a : store) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    optind = 0; opterr = 0; optarg = nullptr;
    return run_proc(d, c, [&] { LibScope ls; return cli_main((int)args.size(), argv.data()); });
}
Result run_proc(Disk &d, const Cfg &c, const std::function<int()> &body) {
    static Proc proc;
    proc.~Proc();
    new (&proc) Proc();
    P = &proc;
    P->d = &d; P->c = c; P->rng = Rng(mix(c.seed, 0xC11));
    P->fds.resize(3);
    for (int i = 0; i < 3; i++) { P->fds[i].open = true; P->fds[i].rd = i == 0; P->fds[i].wr = i != 0; P->fds[i].isout = i == 1; P->fds[i].name = i == 1 ? "(stdout)" : i ? "(stderr)" : "(stdin)"; }
    sim_io_stdin = s_make(0, true, false, 0);
    sim_io_stdout = s_make(1, false, true, c.out_tty ? 1 : 0);
    sim_io_stderr = s_make(2, false, true, 2);
    int sigf = -1;
    if (c.sig_from >= 0)
        sigf = spawn("signal", [&] {
            block_until([] { return !P->running || P->r.signalled || (now() >= (uint64_t)P->c.sig_from && (P->handler[SIGINT] || P->handler[SIGTERM])); });
            deliver();
        });
    P->running = true;
    if (!setjmp(P->jb)) {
        P->r.code = body() & 255;
    }
    // normal process termination: buffered output is written, errors go unnoticed
    for (size_t i = 0; i < P->files.size(); i++) if (P->files[i]->live) { s_flush(P->files[i].get()); P->r.open_files += P->files[i]->fd > 2; }
    P->running = false;
    (void)sigf;
    P->r.t_end = sim_ns();
    end_process();
    return P->r;
}
}
