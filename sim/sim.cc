// Deterministic simulator for pscm.
//
// One process image ("zygote") forks one child per simulated run.  In the child every
// source of nondeterminism the interpreter touches is owned by this file:
//   - file system, stdin/stdout/stderr, temporary files : in-memory, via --wrap + fopencookie
//   - GC points                                          : PSCM_SIM hook in gc_alloc
//   - heap placement (mmap), C stack placement           : fixed addresses
//   - heap growth failure, I/O failures, crash points    : decided by the seeded plan
// A run is a pure function of its spec (program files, knobs, seed or explicit plan) and the code.
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <pthread.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "sim.h"

extern int pscm_main(int argc, char **argv);

extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__real_tmpfile(void);
int __real_fclose(FILE *);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void __real_exit(int) __attribute__((noreturn));
}

// ------------------------------------------------------------------ log (shared with the zygote)
static const size_t LOG_CAP = 16u << 20;
struct LogHdr { uint32_t used; uint32_t overflow; };
static char *g_log; // LogHdr + records: tag(1) len(4) payload
static char *g_spec;
static const size_t SPEC_CAP = 16u << 20;

void sim_log(char tag, const void *p, size_t n) {
  LogHdr *h = (LogHdr *)g_log;
  if (sizeof(LogHdr) + h->used + n + 5 > LOG_CAP) { h->overflow = 1; return; }
  char *d = g_log + sizeof(LogHdr) + h->used;
  uint32_t l = (uint32_t)n;
  d[0] = tag; memcpy(d + 1, &l, 4); if (n) memcpy(d + 5, p, n);
  h->used += 5 + l;
}
void sim_logf(char tag, const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n < 0) n = 0; if (n > (int)sizeof b - 1) n = sizeof b - 1;
  sim_log(tag, b, n);
}

// ------------------------------------------------------------------ PRNG (splitmix64)
struct Rng { uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(next() % n) : 0; }
};
static Rng g_rng_gc, g_rng_io;

// ------------------------------------------------------------------ spec
typedef std::map<std::string, long> Knobs;
static Knobs *K;
long sim_knob(const char *k, long d) { auto i = K->find(k); return i == K->end() ? d : i->second; }
struct SFile { std::string data; bool faulty = false; bool dir = false; };
static std::map<std::string, SFile> *FS;
static std::vector<std::string> *ARGS;
std::vector<std::string> *SIM_CLIENT;
struct Fault { std::string kind; long arg; };
static std::map<long, Fault> *PLAN;    // io op index -> fault (explicit mode)
static std::vector<uint32_t> *GCPLAN;  // sorted alloc indices (explicit mode)
static std::string *STDIN_DATA;

// ------------------------------------------------------------------ statistics
static uint64_t g_allocs, g_gcs, g_reclaimed, g_ioops, g_faults, g_heap_bytes, g_mmaps;
static long g_budget; static bool g_armed, g_in_sim;
static size_t g_gcplan_pos;
static long g_open_files, g_max_open;
uint64_t sim_allocs() { return g_allocs; }

static void finish(const char *why, int status) __attribute__((noreturn));
// Block accounting (knob "track"): every block handed out must not overlap one in use, and a
// block in use is handed back at most once.  A sweep reports blocks that were free already too.
struct Blk { uint32_t size; int8_t tag; bool live; };
// (kept outside malloc so that the tables do not disturb the malloc figures)
template <class T> struct MapAlloc { typedef T value_type; MapAlloc() {} template <class U> MapAlloc(const MapAlloc<U> &) {}
  T *allocate(size_t n) { static char *p, *e; size_t b = (n * sizeof(T) + 15) & ~(size_t)15; if (p + b > e) { p = (char *)__real_mmap(nullptr, 4 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); e = p + (4 << 20); } T *r = (T *)p; p += b; return r; }
  void deallocate(T *, size_t) {} template <class U> bool operator==(const MapAlloc<U> &) const { return true; } template <class U> bool operator!=(const MapAlloc<U> &) const { return false; } };
typedef std::map<uintptr_t, Blk, std::less<uintptr_t>, MapAlloc<std::pair<const uintptr_t, Blk>>> BlkMap;
static BlkMap *BLOCKS;
static uint64_t g_live, g_live_max, g_overlaps, g_hwm;
static size_t g_malloc_peak;
static void finish(const char *why, int status) {
  g_in_sim = true;
  struct mallinfo2 mi = mallinfo2();
  for (auto &f : *FS) {
    std::string r = f.first + '\n' + f.second.data;
    sim_log('D', r.data(), r.size());
  }
  if (BLOCKS) {
    std::map<int, uint64_t> by; for (auto &b : *BLOCKS) if (b.second.live) by[b.second.tag]++;
    for (auto &x : by) sim_logf('L', "%d %llu", x.first, (unsigned long long)x.second);
    sim_logf('Z', "why=%s live=%llu livemax=%llu overlaps=%llu hwm=%llu", why, (unsigned long long)g_live, (unsigned long long)g_live_max, (unsigned long long)g_overlaps, (unsigned long long)g_hwm);
  }
  sim_logf('Z', "why=%s status=%d allocs=%llu gcs=%llu reclaimed=%llu ioops=%llu faults=%llu heap=%llu mmaps=%llu open=%ld maxopen=%ld malloc=%zu mpeak=%zu",
    why, status, (unsigned long long)g_allocs, (unsigned long long)g_gcs, (unsigned long long)g_reclaimed, (unsigned long long)g_ioops,
    (unsigned long long)g_faults, (unsigned long long)g_heap_bytes, (unsigned long long)g_mmaps, g_open_files, g_max_open, (size_t)mi.uordblks + (size_t)mi.hblkhd, g_malloc_peak);
  _exit(why[0] == 'e' ? 0 : 99);
}

// ------------------------------------------------------------------ GC seam
static uint32_t *g_gcbuf; static uint32_t g_gcn;
static void gc_record(uint32_t idx) { sim_log('G', &idx, 4); }
void sim_arm(bool on) { g_armed = on; }
extern "C" bool pscm_sim_gc_due(size_t) {
  g_allocs++;
  static long peak = sim_knob("malloc_peak", 0);
  if (peak && g_allocs % 64 == 0) { struct mallinfo2 mi = mallinfo2(); if (mi.uordblks + mi.hblkhd > g_malloc_peak) g_malloc_peak = mi.uordblks + mi.hblkhd; }
  if ((long)g_allocs > g_budget) { finish("budget", 0); }
  static long mode = -1, rate, start, burst_at, burst_len, every, arm;
  if (mode < 0) { mode = sim_knob("gc_mode", 0); rate = sim_knob("gc_rate", 0); start = sim_knob("gc_start", 0);
    burst_at = sim_knob("gc_burst_at", -1); burst_len = sim_knob("gc_burst_len", 0); every = sim_knob("gc_every", 0); arm = sim_knob("gc_arm", 1); }
  if (mode == 0) return false;
  bool due = false;
  if (mode == 1) {
    if (arm && !g_armed) return false;
    static uint64_t base = 0; if (!base) base = g_allocs;
    uint64_t rel = g_allocs - base;
    if ((long)rel < start) return false;
    if (rate && (long)g_rng_gc.below(65536) < rate) due = true;
    if (every && rel % every == 0) due = true;
    if (burst_at >= 0 && (long)rel >= burst_at && (long)rel < burst_at + burst_len) due = true;
  } else {
    while (g_gcplan_pos < GCPLAN->size() && (*GCPLAN)[g_gcplan_pos] < g_allocs) g_gcplan_pos++;
    due = g_gcplan_pos < GCPLAN->size() && (*GCPLAN)[g_gcplan_pos] == g_allocs;
  }
  static long gcmax = sim_knob("gc_max", 400);
  if (due && (long)g_gcs >= gcmax && mode == 1) due = false;
  if (due) { g_gcs++; gc_record((uint32_t)g_allocs); }
  return due;
}
extern "C" void pscm_sim_allocated(int tag, void *obj, size_t size) {
  static long track = sim_knob("track", 0);
  if (!track) return;
  if (!BLOCKS) BLOCKS = new BlkMap();
  uintptr_t a = (uintptr_t)obj;
  auto it = BLOCKS->upper_bound(a + size - (size ? 1 : 0));
  while (it != BLOCKS->begin()) { // blocks starting at or before our last byte
    --it;
    if (it->second.live && it->first + it->second.size > a) {
      if (g_overlaps++ < 5) sim_logf('V', "overlap tag %d size %zu at +%zx over live tag %d size %u", tag, size, (size_t)(a - 0x100000000000ull), it->second.tag, it->second.size);
    }
    if (it->first + 65536 < a) break;
    if (it->first <= a && it->second.live) break;
    if (it->first < a) break;
  }
  auto &b = (*BLOCKS)[a];
  if (a + size - 0x100000000000ull > g_hwm) g_hwm = a + size - 0x100000000000ull;
  b.size = (uint32_t)size; b.tag = (int8_t)tag; b.live = true;
  if (++g_live > g_live_max) g_live_max = g_live;
}
extern "C" void pscm_sim_reclaimed(int, void *obj, size_t size) {
  if (BLOCKS) {
    auto it = BLOCKS->find((uintptr_t)obj);
    if (it != BLOCKS->end() && it->second.live) { it->second.live = false; g_live--; g_reclaimed++; }
  } else g_reclaimed++;
  static long poison = -1; if (poison < 0) poison = sim_knob("poison", 0);
  if (poison) memset(obj, 0, size);
}

// ------------------------------------------------------------------ heap placement seam
static char *g_next_map = (char *)0x100000000000ull;
extern "C" void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off) {
  if (a || fd != -1 || !K) return __real_mmap(a, n, prot, flags, fd, off);
  g_mmaps++;
  long failat = sim_knob("mmap_fail_at", 0);
  if (failat && (long)g_mmaps >= failat) { g_faults++; sim_logf('F', "%ld mmap ENOMEM %llu heap", (long)g_ioops, (unsigned long long)g_heap_bytes); errno = ENOMEM; return MAP_FAILED; }
  long cap = sim_knob("heap_cap_mb", 0);
  if (cap && g_heap_bytes + n > (uint64_t)cap << 20) { g_faults++; sim_logf('F', "%ld mmap ENOMEM %llu heap", (long)g_ioops, (unsigned long long)g_heap_bytes); errno = ENOMEM; return MAP_FAILED; }
  long gap = sim_knob("seg_gap_kb", 0) << 10;
  size_t room = ((n + 0xffff) & ~(size_t)0xffff) + gap;
  // where the operating system places a mapping: above (0), below (1) or on alternating sides (2) of the earlier ones, or anywhere, between them too (3)
  long dir = sim_knob("seg_dir", 0);
  static char *low = (char *)0x100000000000ull;
  bool below = g_mmaps > 1 && (dir == 1 || (dir == 2 && g_mmaps % 2 == 0));
  if (dir == 3 && n <= 1ul << 30) {
    // segment k goes to slot k * step of 101, so that no two share one
    size_t slot = (g_mmaps * (1 + sim_knob("seg_seed", 36) % 100) + 50) % 101;
    void *r = __real_mmap((char *)0x200000000000ull + (slot << 31), n, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
    if (r != MAP_FAILED) { g_heap_bytes += n; return r; }
  }
  void *r = __real_mmap(below ? low - room : g_next_map, n, prot, flags | MAP_FIXED_NOREPLACE, fd, off);
  if (r == MAP_FAILED) { return r; }
  if (below) low -= room; else g_next_map += room;
  g_heap_bytes += n;
  return r;
}

// ------------------------------------------------------------------ fault decisions for I/O operations
struct KindDef { const char *site, *kind; };
static const KindDef KINDS[] = {
  {"open", "EMFILE"}, {"open", "EACCES"}, {"read", "EIO"}, {"read", "SHORT"}, {"read", "EINTR"},
  {"write", "ENOSPC"}, {"write", "EIO"}, {"write", "TORN"}, {"seek", "ESPIPE"}, {"close", "EIO"},
  {"tmpfile", "EMFILE"}, {"write", "CRASH"}, {"open", "CRASH"}, {"close", "CRASH"}, {"read", "CRASH"}, {"open", "ENOENT"},
};
static long g_disk_full_until = -1;
static bool io_fault(const char *site, const std::string &path, bool faulty, Fault &out) {
  long idx = (long)++g_ioops;
  bool hit = false;
  if (faulty) { static long lg = sim_knob("io_log", 0); if (lg) sim_logf('J', "%ld %s %s", idx, site, path.c_str()); }
  static long iomode = sim_knob("io_mode", 0);
  if (iomode == 2) {
    auto it = PLAN->find(idx);
    if (it != PLAN->end()) { out = it->second; hit = true; }
  } else if (iomode == 1 && faulty) {
    static long mx = sim_knob("io_max", 1 << 30), skip = sim_knob("io_skip", 0);
    if ((long)g_faults < mx && idx > skip) {
      static long prob[sizeof(KINDS) / sizeof(KINDS[0])], init;
      if (!init) { init = 1; int i = 0; for (auto &k : KINDS) { char kn[64]; snprintf(kn, sizeof kn, "p_%s_%s", k.site, k.kind); prob[i++] = sim_knob(kn, 0); } }
      for (auto &k : KINDS) {
        if (strcmp(k.site, site)) continue;
        long p = prob[&k - KINDS];
        if (p && (long)g_rng_io.below(1000) < p) { out.kind = k.kind; out.arg = (long)g_rng_io.below(65536); hit = true; break; }
      }
    }
  }
  if (hit) { g_faults++; sim_logf('F', "%ld %s %s %ld %s", idx, site, out.kind.c_str(), out.arg, path.c_str()); }
  if (hit && out.kind == "CRASH" && strcmp(site, "write")) finish("crash", 0);
  return hit;
}
static int kind_errno(const std::string &k) {
  if (k == "EMFILE") return EMFILE; if (k == "EACCES") return EACCES; if (k == "ENOENT") return ENOENT;
  if (k == "EINTR") return EINTR; if (k == "ENOSPC" || k == "TORN") return ENOSPC; if (k == "ESPIPE") return ESPIPE; return EIO;
}

// ------------------------------------------------------------------ simulated files
struct Cookie { std::string path; bool in, out; size_t pos; std::string own; bool istmp; char std_tag; bool faulty; bool failed_close; FILE *fp; char *buf; };
static std::map<FILE *, Cookie *> *OPEN;
static std::string &cdata(Cookie *c) { return c->istmp || c->std_tag ? c->own : (*FS)[c->path].data; }

static ssize_t ck_read(void *v, char *buf, size_t n) {
  Cookie *c = (Cookie *)v; Fault f;
  std::string &d = cdata(c);
  size_t avail = c->pos < d.size() ? d.size() - c->pos : 0;
  if (n > avail) n = avail;
  static long cap = sim_knob("read_cap", 0); if (cap && n > (size_t)cap) n = cap;
  if (io_fault("read", c->path, c->faulty, f)) {
    if (f.kind == "SHORT") { size_t k = 1 + f.arg % 7; if (n > k) n = k; }
    else { sim_logf('I', "readerr %s %zu", c->path.c_str(), c->pos); errno = kind_errno(f.kind); return -1; }
  }
  memcpy(buf, d.data() + c->pos, n); c->pos += n;
  return (ssize_t)n;
}
static ssize_t ck_write(void *v, const char *buf, size_t n) {
  Cookie *c = (Cookie *)v; Fault f;
  if (c->std_tag) { sim_log(c->std_tag, buf, n);
    if (c->faulty && io_fault("write", c->path, true, f)) { errno = kind_errno(f.kind); return 0; }
    return (ssize_t)n; }
  std::string &d = cdata(c);
  bool crash = false, err = false; size_t m = n;
  if (io_fault("write", c->path, c->faulty, f)) {
    if (f.kind == "CRASH") { crash = true; m = n ? f.arg % (n + 1) : 0; }
    else { err = true; m = (f.kind == "EIO") ? 0 : (f.kind == "TORN") ? (n ? f.arg % n : 0) : 0; errno = kind_errno(f.kind); }
  }
  if (c->pos > d.size()) d.resize(c->pos);
  d.replace(c->pos, m < d.size() - c->pos ? m : d.size() - c->pos, buf, m);
  c->pos += m;
  if (crash) { sim_logf('I', "crash %s", c->path.c_str()); finish("crash", 0); }
  if (err) { sim_logf('I', "writeerr %s lost=%zu", c->path.c_str(), n - m); errno = kind_errno(f.kind); return m ? (ssize_t)m : 0; }
  return (ssize_t)n;
}
static int ck_seek(void *v, off64_t *off, int wh) {
  Cookie *c = (Cookie *)v; Fault f;
  if (c->std_tag) { errno = ESPIPE; return -1; }
  if (io_fault("seek", c->path, c->faulty, f)) { errno = kind_errno(f.kind); return -1; }
  std::string &d = cdata(c);
  int64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (int64_t)c->pos + *off : (int64_t)d.size() + *off;
  if (p < 0) { errno = EINVAL; return -1; }
  c->pos = (size_t)p; *off = p; return 0;
}
static int ck_close(void *v) {
  Cookie *c = (Cookie *)v; Fault f; int r = 0;
  if (!c->std_tag && !c->istmp) {
    if (io_fault("close", c->path, c->faulty, f)) { errno = kind_errno(f.kind); r = -1; sim_logf('I', "closeerr %s", c->path.c_str()); }
    else sim_logf('I', "close %s %s", c->path.c_str(), c->out ? "w" : "r");
  }
  g_open_files--;
  OPEN->erase(c->fp);
  delete c; return r;
}
static FILE *mk(Cookie *c, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie(c, mode, io);
  c->fp = fp; (*OPEN)[fp] = c; g_open_files++; if (g_open_files > g_max_open) g_max_open = g_open_files;
  static long bs = sim_knob("bufsize", 0);
  if (c->faulty && !c->std_tag) { if (bs == 1) setvbuf(fp, nullptr, _IONBF, 0); else if (bs > 1) setvbuf(fp, (c->buf = nullptr, (char *)malloc(bs)), _IOFBF, bs); }
  return fp;
}
static std::string norm(const char *p) {
  std::string s = p; while (s.compare(0, 2, "./") == 0) s = s.substr(2);
  std::string o; for (char ch : s) { if (ch == '/' && !o.empty() && o.back() == '/') continue; o += ch; }
  return o;
}
extern "C" FILE *__wrap_fopen(const char *path, const char *mode) {
  if (!FS) return __real_fopen(path, mode);
  Fault f; std::string p = norm(path);
  auto it = FS->find(p);
  bool faulty = it == FS->end() ? sim_knob("new_faulty", 1) : it->second.faulty;
  bool rd = mode[0] == 'r';
  // A program that tries again at once (nothing was allocated in between) makes one attempt:
  // an injected refusal stands, a limit on open files may have been lifted by closing some.
  static std::string refused; static uint64_t refused_at; static int refused_errno;
  bool again = refused_errno && refused == p && refused_at == g_allocs;
  if (again && refused_errno > 0) { errno = refused_errno; return nullptr; }
  if (!again && io_fault("open", p, faulty, f)) {
    sim_logf('I', "openerr %s %s", p.c_str(), mode); refused = p; refused_at = g_allocs;
    errno = refused_errno = kind_errno(f.kind); return nullptr; }
  refused_errno = 0;
  if (rd && it == FS->end()) { sim_logf('I', "noent %s", p.c_str()); errno = ENOENT; return nullptr; }
  long maxfd = sim_knob("max_fd", 0);
  if (maxfd && g_open_files - 3 >= maxfd) {
    if (!again) { g_faults++; sim_logf('F', "%ld open EMFILE 0 %s", (long)g_ioops, p.c_str()); }
    refused = p; refused_at = g_allocs; refused_errno = -1; errno = EMFILE; return nullptr; }
  if (again) { g_faults--; sim_logf('I', "reopen %s", p.c_str()); }
  size_t sl = p.rfind('/');
  if (!rd && sl != std::string::npos && sl > 0) { // parent directory must exist
    std::string dir = p.substr(0, sl); if (!FS->count(dir + "/")) { errno = ENOENT; return nullptr; }
  }
  Cookie *c = new Cookie(); c->path = p; c->in = rd; c->out = !rd; c->faulty = faulty;
  if (mode[0] == 'w') { (*FS)[p].data.clear(); (*FS)[p].faulty = faulty; }
  if (mode[0] == 'a') { c->pos = (*FS)[p].data.size(); (*FS)[p].faulty = faulty; }
  sim_logf('I', "open %s %s", p.c_str(), mode);
  if (rd && !g_armed) g_armed = true;
  return mk(c, mode);
}
extern "C" FILE *__wrap_tmpfile(void) {
  if (!FS) return __real_tmpfile();
  Fault f;
  static long tf = sim_knob("tmp_faulty", 0);
  if (io_fault("tmpfile", "<tmp>", tf, f)) { errno = kind_errno(f.kind); return nullptr; }
  Cookie *c = new Cookie(); c->path = "<tmp>"; c->in = c->out = true; c->istmp = true; c->faulty = tf;
  return mk(c, "w+");
}
extern "C" FILE *__wrap_popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
extern "C" int __wrap_pclose(FILE *) { return -1; }
// the stack the client runs on is the simulator's own
static char *g_sim_stack; static size_t g_sim_stack_size;
extern "C" int __real_pthread_getattr_np(pthread_t, pthread_attr_t *);
extern "C" int __real_pthread_attr_getstack(const pthread_attr_t *, void **, size_t *);
extern "C" int __wrap_pthread_getattr_np(pthread_t t, pthread_attr_t *a) {
  if (!FS || !g_sim_stack) return __real_pthread_getattr_np(t, a);
  return pthread_attr_init(a);
}
extern "C" int __wrap_pthread_attr_getstack(const pthread_attr_t *a, void **addr, size_t *size) {
  if (!FS || !g_sim_stack) return __real_pthread_attr_getstack(a, addr, size);
  *addr = g_sim_stack; *size = g_sim_stack_size; return 0;
}
extern "C" void (*__wrap_signal(int, void (*)(int)))(int) { return SIG_DFL; }
extern "C" void __wrap_exit(int st) {
  if (!FS || g_in_sim) __real_exit(st);
  fflush(nullptr);
  sim_logf('X', "%d", st);
  finish("exit", st);
}

// ------------------------------------------------------------------ one run, in the child
static ucontext_t g_main_uc, g_run_uc;
static int g_rc;
static void run_entry() {
  std::vector<char *> av; for (auto &a : *ARGS) av.push_back((char *)a.c_str()); av.push_back(nullptr);
  long mode = sim_knob("mode", 0);
  g_rc = mode == 0 ? pscm_main((int)ARGS->size(), av.data()) : sim_capi_main((int)mode);
  __wrap_exit(g_rc);
}
static uint32_t rd32(const char *p) { uint32_t v; memcpy(&v, p, 4); return v; }
static void child(uint32_t speclen) {
  auto *fs = new std::map<std::string, SFile>(); ARGS = new std::vector<std::string>(); SIM_CLIENT = new std::vector<std::string>();
  PLAN = new std::map<long, Fault>(); GCPLAN = new std::vector<uint32_t>(); STDIN_DATA = new std::string(); OPEN = new std::map<FILE *, Cookie *>();
  auto *kn = new Knobs();
  const char *p = g_spec, *e = g_spec + speclen;
  while (p < e) {
    char t = *p++; uint32_t kl = rd32(p); p += 4; std::string k(p, kl); p += kl; uint32_t vl = rd32(p); p += 4; std::string v(p, vl); p += vl;
    switch (t) {
      case 'K': (*kn)[k] = atol(v.c_str()); break;
      case 'F': (*fs)[k].data = v; break;
      case 'f': (*fs)[k].data = v; (*fs)[k].faulty = true; break;
      case 'A': ARGS->push_back(v); break;
      case 'C': SIM_CLIENT->push_back(k + "\n" + v); break;
      case 'S': *STDIN_DATA = v; break;
      case 'P': { Fault f; char kd[32] = {0}; long a = 0; sscanf(v.c_str(), "%31s %ld", kd, &a); f.kind = kd; f.arg = a; (*PLAN)[atol(k.c_str())] = f; break; }
      case 'G': for (size_t i = 0; i + 4 <= v.size(); i += 4) GCPLAN->push_back(rd32(v.data() + i)); break;
    }
  }
  K = kn; FS = fs;
  uint64_t seed = (uint64_t)sim_knob("seed", 1);
  g_rng_gc.s = seed * 0x9E3779B97F4A7C15ull + 17; g_rng_io.s = seed * 0xD1B54A32D192ED03ull + 91;
  g_budget = sim_knob("budget", 5000000);
  if (sim_knob("perturb", 0)) mallopt(M_PERTURB, (int)sim_knob("perturb", 0));
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = (rlim_t)sim_knob("cpu_s", 20); setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = (rlim_t)3 << 30; setrlimit(RLIMIT_AS, &rl);
  fflush(stdout);
  Cookie *c = new Cookie(); c->path = "<stdout>"; c->out = true; c->std_tag = 'O'; c->faulty = sim_knob("stdout_faulty", 0); stdout = mk(c, "w");
  if (sim_knob("stdout_buf", 0)) setvbuf(stdout, (char *)malloc(sim_knob("stdout_buf", 0)), _IOFBF, sim_knob("stdout_buf", 0)); else setvbuf(stdout, nullptr, _IONBF, 0);
  c = new Cookie(); c->path = "<stderr>"; c->out = true; c->std_tag = 'E'; stderr = mk(c, "w"); setvbuf(stderr, nullptr, _IONBF, 0);
  c = new Cookie(); c->path = "<stdin>"; c->in = true; c->std_tag = 'i'; c->own = *STDIN_DATA; c->faulty = sim_knob("stdin_faulty", 0); stdin = mk(c, "r");
  size_t ss = (size_t)sim_knob("stack_mb", 64) << 20;
  char *stk = (char *)__real_mmap((void *)0x200000000000ull, ss, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (stk == MAP_FAILED) { sim_logf('!', "stack mmap"); _exit(98); }
  g_sim_stack = (char *)stk; g_sim_stack_size = ss;
  getcontext(&g_run_uc); g_run_uc.uc_stack.ss_sp = stk; g_run_uc.uc_stack.ss_size = ss; g_run_uc.uc_link = &g_main_uc;
  makecontext(&g_run_uc, run_entry, 0);
  swapcontext(&g_main_uc, &g_run_uc);
  _exit(97);
}

static bool rdn(int fd, char *b, size_t n) { while (n) { ssize_t r = read(fd, b, n); if (r <= 0) return false; b += r; n -= r; } return true; }
static bool wrn(int fd, const char *b, size_t n) { while (n) { ssize_t r = write(fd, b, n); if (r <= 0) return false; b += r; n -= r; } return true; }

int main(int argc, char **argv) {
  if (!getenv("PSCM_SIM_NOASLR")) { // best effort; the run does not depend on it
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("PSCM_SIM_NOASLR", "1", 1); execv("/proc/self/exe", argv);
    }
  }
  g_log = (char *)__real_mmap((void *)0x300000000000ull, LOG_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_spec = (char *)__real_mmap((void *)0x310000000000ull, SPEC_CAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (g_log == MAP_FAILED || g_spec == MAP_FAILED) return 3;
  if (argc > 2 && !strcmp(argv[1], "--once")) { // run one spec in this process (debugging)
    int fd = open(argv[2], O_RDONLY); ssize_t n = fd < 0 ? -1 : read(fd, g_spec, SPEC_CAP);
    if (n < 0) return 4;
    child((uint32_t)n);
  }
  signal(SIGPIPE, SIG_IGN);
  int in = dup(0), out = dup(1); int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
  for (;;) {
    uint32_t n; if (!rdn(in, (char *)&n, 4)) return 0;
    if (n > SPEC_CAP || !rdn(in, g_spec, n)) return 4;
    ((LogHdr *)g_log)->used = 0; ((LogHdr *)g_log)->overflow = 0;
    pid_t pid = fork();
    if (pid == 0) { close(in); close(out); child(n); }
    if (pid < 0) return 5;
    int st = 0; int waited = 0; bool killed = false;
    while (waitpid(pid, &st, WNOHANG) == 0) { struct timespec ts = {0, waited < 200 ? 50000 : 1000000}; nanosleep(&ts, nullptr); waited++; if (waited > 120000) { kill(pid, SIGKILL); killed = true; } }
    uint32_t h[3]; h[0] = ((LogHdr *)g_log)->used; h[1] = (uint32_t)st; h[2] = ((LogHdr *)g_log)->overflow | (killed ? 2 : 0);
    if (!wrn(out, (char *)h, sizeof h) || !wrn(out, g_log + sizeof(LogHdr), h[0])) return 0;
    if (h[0] > (4u << 20)) madvise(g_log, LOG_CAP, MADV_REMOVE);
  }
}
