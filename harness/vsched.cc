#include "vsched.h"
#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <vector>

// ---------------------------------------------------------------- real calls
#define REAL(name) ([]{ static decltype(&::name) p = 0; if (!p) p = (decltype(&::name))dlsym(RTLD_NEXT, #name); return p; }())

extern "C" char __executable_start;
extern "C" char etext;

// told about synchronisation: 'a'cquire, 'r'elease, 'b'arrier of all threads
extern "C" void (*vs_sync)(char what, const void* obj, int tid);
void (*vs_sync)(char, const void*, int) = 0;

namespace vs {
namespace {

struct Baton {
  std::atomic<int> v{0};
  void post() { v.store(1); syscall(SYS_futex, (int*)&v, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
  void wait() { while (v.exchange(0) == 0) syscall(SYS_futex, (int*)&v, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); }
};

enum St { RUN, ADDR, COND, POLL, JOIN, GATE, SLEEP, QUIET, STEPS, EXITED };
const char* st_name[] = {"run","lock","cond","poll","join","gate","sleep","quiet","steps","exited"};

struct Thr {
  int id = 0;
  pthread_t pt{};
  Baton baton;
  St st = RUN;
  const void* obj = 0;          // lock/cond address
  bool signaled = false;
  std::vector<pollfd> pfds;     // POLL
  long deadline = -1;           // virtual ms, -1 none
  Thr* joinee = 0;
  std::string gate;
  long steps_left = 0;
  int prio = 0;
  bool actor = false, actor_finished = false;
  bool managed_done = false;
  std::function<void()> fn;
  void* (*start)(void*) = 0;
  void* arg = 0;
};

std::deque<Thr*> thr;              // index = id
__thread Thr* self = 0;
__thread int nopreempt = 0;
bool active = false;
Config cfg;
uint64_t rng = 88172645463325252ull;
long vnow = 0;
struct timespec base_rt, base_mono;
long decisions = 0, run_start = 0;
int eintr_left = 0;
bool settled = true;
bool overflow = false;
long bb_left = LONG_MAX;
std::vector<long> change_points;
long opps = 0; size_t next_at = 0; bool forced = false;   // mode 3
int low_prio = -1;
std::set<std::string> open_gates;

void sync(char w, const void* o) { if (vs_sync && self && active) vs_sync(w, o, self->id); }
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
long rnd_n(long n) { return n <= 0 ? 0 : (long)(rnd() % (uint64_t)n); }
void rearm_bb() { bb_left = !cfg.bb_mean ? LONG_MAX : cfg.mode == 3 ? cfg.bb_mean : 1 + rnd_n(2L * cfg.bb_mean); }

// descriptor info
struct FdInfo { int owner = 0; int port = 0; bool lim = false; long cap = -1; long budget = -1; bool listen = false; bool hang = false; int soerr = 0; sockaddr_in to; };
FdInfo fdi[4096];
struct Lim { long cap, budget; };
std::map<int, Lim> limits;   // by peer port
long connect_cap = -1;
int listen_port = 0, shrink = 0;
std::string listen_ip;
long n_accepts = 0;
int accept_failures = 0;
bool hanging = false; int n_hang = 0;

bool in_exe(void* ra) { return (char*)ra >= &__executable_start && (char*)ra < &etext; }

int port_of(int fd, bool peer)
{
  sockaddr_in sa; socklen_t sl = sizeof sa;
  memset(&sa, 0, sizeof sa);
  if ((peer ? getpeername(fd, (sockaddr*)&sa, &sl) : getsockname(fd, (sockaddr*)&sa, &sl)) != 0) return 0;
  return ntohs(sa.sin_port);
}

FdInfo* info(int fd) { return fd >= 0 && fd < 4096 ? &fdi[fd] : 0; }

Lim* limit_for(int fd)
{
  FdInfo* i = info(fd);
  if (!i || i->owner != LIB || !i->port) return 0;
  auto it = limits.find(i->port);
  return it == limits.end() ? 0 : &it->second;
}

int poll_now(pollfd* p, nfds_t n)
{
  int r = real::poll(p, n, 0);
  if (r <= 0 || (limits.empty() && !n_hang)) return r;
  for (nfds_t k = 0; k < n; ++k) {
    FdInfo* i = info(p[k].fd);
    if (i && i->hang && p[k].revents) { p[k].revents = 0; --r; continue; }
    Lim* l = limit_for(p[k].fd);
    if (l && l->budget == 0 && (p[k].revents & POLLOUT)) {
      p[k].revents &= ~POLLOUT;
      if (!p[k].revents) --r;
    }
  }
  return r;
}

bool runnable(Thr* t)
{
  switch (t->st) {
    case RUN: return true;
    case COND: if (t->signaled) return true; return t->deadline >= 0 && vnow >= t->deadline;
    case SLEEP: return vnow >= t->deadline;
    case JOIN: return t->joinee->managed_done;
    case GATE: return open_gates.count(t->gate) > 0;
    case POLL:
      if (eintr_left > 0) return true;
      if (t->deadline >= 0 && vnow >= t->deadline) return true;
      return poll_now(t->pfds.data(), t->pfds.size()) != 0;
    case STEPS: return t->steps_left <= 0;
    default: return false;
  }
}

void switch_to(Thr* n)
{
  Thr* me = self;
  if (n == me) return;
  n->baton.post();
  if (me->st == EXITED) return;
  me->baton.wait();
}

// Pick the next thread.  `self` has set its own state already.
void schedule(bool may_stay)
{
  if (!active) return;
  forced = false;
  if (cfg.mode == 3 && may_stay && self->id != 0) {
    ++opps;
    if (next_at < cfg.at.size() && cfg.at[next_at].first == opps) { ++next_at; forced = true; }
  }
  ++nopreempt;
  for (int attempt = 0;; ++attempt) {
    Thr* drv = thr[0];
    if (decisions - run_start > cfg.max_decisions) {
      overflow = true;
      if (drv->st == QUIET || drv->st == STEPS) { drv->st = RUN; settled = false; switch_to(drv); break; }
    }
    ++decisions;
    if (cfg.spurious_pct && rnd_n(100) < cfg.spurious_pct) {
      std::vector<Thr*> w;
      for (auto t : thr) if (t->st == COND && !t->signaled) w.push_back(t);
      if (!w.empty()) w[rnd_n(w.size())]->signaled = true;
    }
    std::vector<Thr*> r;
    for (auto t : thr) if (runnable(t)) r.push_back(t);
    if (r.empty()) {
      if (drv->st == STEPS) { drv->st = RUN; switch_to(drv); break; }
      // nothing can run: give the kernel a moment before believing it
      if (attempt < 2) { if (attempt) real::usleep(cfg.settle_us); else sched_yield(); continue; }
      if (drv->st == QUIET) { drv->st = RUN; settled = true; switch_to(drv); break; }
      on_event("deadlock " + describe());
      _exit(98);
    }
    Thr* pick = 0;
    bool me_ok = may_stay && std::find(r.begin(), r.end(), self) != r.end();
    if (cfg.mode == 3 && me_ok && forced) {
      std::vector<Thr*> o;
      for (auto t : r) if (t != self) o.push_back(t);
      pick = o.empty() ? self : o[cfg.at[next_at - 1].second % o.size()];
      forced = false;
    } else if (cfg.mode == 0 || cfg.mode == 3) {
      pick = me_ok ? self : r[0];
      if (!me_ok) for (auto t : r) if (t->id != 0) { pick = t; break; }
    } else if (cfg.mode == 1) {
      if (me_ok && rnd_n(100) >= cfg.switch_pct) pick = self;
      else pick = r[rnd_n(r.size())];
    } else {
      for (size_t k = 0; k < change_points.size(); ++k)
        if (change_points[k] == decisions - run_start) self->prio = low_prio--;
      pick = r[0];
      for (auto t : r) if (t->prio > pick->prio) pick = t;
    }
    if (drv->st == STEPS) --drv->steps_left;
    if (pick->st == POLL || pick->st == COND || pick->st == JOIN || pick->st == GATE || pick->st == SLEEP || pick->st == STEPS)
      pick->st = RUN;
    switch_to(pick);
    break;
  }
  --nopreempt;
}

void wake_addr(const void* a)
{
  for (auto t : thr) if (t->st == ADDR && t->obj == a) t->st = RUN;
}

void block_addr(const void* a)
{
  self->st = ADDR; self->obj = a;
  schedule(false);
}

Thr* new_thr()
{
  Thr* t = new Thr;
  t->id = thr.size();
  t->prio = 1 + rnd_n(1000000);
  thr.push_back(t);
  return t;
}

void* trampoline(void* p)
{
  Thr* t = (Thr*)p;
  self = t;
  t->baton.wait();
  sync('a', t);
  void* res = 0;
  if (t->actor) { t->fn(); t->actor_finished = true; }
  else res = t->start(t->arg);
  t->managed_done = true;
  sync('r', t);
  t->st = EXITED;
  schedule(false);
  self = 0;
  return res;
}

bool managed() { return active && self; }

struct CondWait { const void* c; };

int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, long deadline)
{
  self->st = COND; self->obj = c; self->signaled = false; self->deadline = deadline;
  sync('r', m);
  REAL(pthread_mutex_unlock)(m);
  wake_addr(m);
  schedule(false);
  bool to = !self->signaled;
  self->deadline = -1;
  while (REAL(pthread_mutex_trylock)(m) == EBUSY) block_addr(m);
  sync('a', m);
  return to ? ETIMEDOUT : 0;
}

long to_deadline(const struct timespec* ts)
{
  // either clock: decide by which base it is closer to
  long rt = (ts->tv_sec - base_rt.tv_sec) * 1000L + (ts->tv_nsec - base_rt.tv_nsec) / 1000000;
  long mo = (ts->tv_sec - base_mono.tv_sec) * 1000L + (ts->tv_nsec - base_mono.tv_nsec) / 1000000;
  long d = labs(rt) < labs(mo) ? rt : mo;
  return d < 0 ? 0 : d;
}

ssize_t limited(int fd, size_t len, int& err)
{
  err = 0;
  FdInfo* i = info(fd);
  if (!i || i->owner != LIB) return len;
  if (i->hang) { err = EAGAIN; return -1; }
  Lim* l = limit_for(fd);
  if (l) {
    if (l->budget == 0) { err = EAGAIN; return -1; }
    if (l->cap > 0 && (long)len > l->cap) len = l->cap;
    if (l->budget > 0 && (long)len > l->budget) len = l->budget;
  }
  if (i->cap > 0 && (long)len > i->cap) len = i->cap;
  return len;
}

void consumed(int fd, ssize_t n)
{
  Lim* l = limit_for(fd);
  if (l && l->budget > 0 && n > 0) l->budget -= n;
}

int do_poll(pollfd* fds, nfds_t n, long timeout);

// a peer that does not read stalls the thread that writes to it with a blocking call
template <class F> ssize_t send_some(int fd, const void* b, size_t n, F real_send, bool dontwait)
{
  FdInfo* i = info(fd);
  bool blocking = i && i->owner == LIB && limit_for(fd) && !dontwait && !(fcntl(fd, F_GETFL) & O_NONBLOCK);
  size_t sent = 0;
  for (;;) {
    int err; ssize_t k = limited(fd, n - sent, err);
    if (k < 0 && !blocking) { errno = err; return -1; }
    if (k < 0) {
      pollfd p = { fd, POLLOUT, 0 };
      if (do_poll(&p, 1, -1) < 0) return sent ? (ssize_t)sent : -1;
      if (!(p.revents & (POLLERR | POLLHUP))) continue;
      k = n - sent;
    }
    ssize_t r = real_send(static_cast<const char*>(b) + sent, k);
    int e = errno; consumed(fd, r); errno = e;
    if (!blocking) return r;
    if (r < 0) return sent ? (ssize_t)sent : r;
    sent += r;
    if (sent == n) return sent;
  }
}

int do_poll(pollfd* fds, nfds_t n, long timeout)
{
  if (eintr_left > 0 && timeout != 0) { --eintr_left; errno = EINTR; return -1; }
  schedule(true);
  int r = poll_now(fds, n);
  if (r != 0 || timeout == 0) return r;
  self->pfds.assign(fds, fds + n);
  self->deadline = timeout < 0 ? -1 : vnow + timeout;
  for (;;) {
    self->st = POLL;
    schedule(false);
    if (eintr_left > 0) { --eintr_left; self->deadline = -1; errno = EINTR; return -1; }
    r = poll_now(fds, n);
    if (r != 0) break;
    if (self->deadline >= 0 && vnow >= self->deadline) break;
  }
  self->deadline = -1;
  return r;
}

// Only descriptors that are open and not the harness's may be used.
void check_use(int fd, const char* what)
{
  if (fd < 0) return;
  int e = errno;
  FdInfo* i = info(fd);
  if ((i && i->owner == HARNESS) || fcntl(fd, F_GETFD) == -1) on_event(std::string("baduse ") + what);
  errno = e;
}

void new_fd(int fd, bool harness = false)
{
  FdInfo* i = info(fd);
  if (i) { *i = FdInfo(); i->owner = harness ? HARNESS : LIB; }
}

} // namespace

namespace real {
int poll(struct pollfd* p, nfds_t n, int t) { return REAL(poll)(p, n, t); }
int close(int fd) { FdInfo* i = info(fd); if (i) *i = FdInfo(); return REAL(close)(fd); }
ssize_t send(int f, const void* b, size_t n, int fl) { return REAL(send)(f, b, n, fl); }
ssize_t recv(int f, void* b, size_t n, int fl) { return REAL(recv)(f, b, n, fl); }
int accept(int f, struct sockaddr* a, socklen_t* l) { return REAL(accept)(f, a, l); }
int connect(int f, const struct sockaddr* a, socklen_t l) { return REAL(connect)(f, a, l); }
int socket(int a, int b, int c) { return REAL(socket)(a, b, c); }
int bind(int f, const struct sockaddr* a, socklen_t l) { return REAL(bind)(f, a, l); }
int listen(int f, int b) { return REAL(listen)(f, b); }
int shutdown(int f, int h) { return REAL(shutdown)(f, h); }
ssize_t write(int f, const void* b, size_t n) { return REAL(write)(f, b, n); }
int usleep(long us) { struct timespec ts = { us / 1000000, (us % 1000000) * 1000 }; return syscall(SYS_nanosleep, &ts, 0); }
}

void start(const Config& c)
{
  cfg = c;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &base_rt);
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &base_mono);
  Thr* t = new_thr();
  t->pt = pthread_self();
  self = t;
  reseed(c);
  active = true;
}

void reseed(const Config& c)
{
  cfg = c;
  rng = c.seed * 6364136223846793005ull + 1442695040888963407ull;
  if (!rng) rng = 1;
  for (int k = 0; k < 8; ++k) rnd();
  for (auto t : thr) t->prio = 1 + rnd_n(1000000);
  change_points.clear();
  for (int k = 0; k < c.depth; ++k) change_points.push_back(1 + rnd_n(c.horizon));
  run_start = decisions;
  opps = 0; next_at = 0; forced = false;
  rearm_bb();
}

int spawn(const std::function<void()>& f)
{
  Thr* t = new_thr();
  t->actor = true; t->fn = f;
  sync('r', t);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
  REAL(pthread_create)(&t->pt, &at, trampoline, t);
  return t->id;
}

int lib_threads() { int n = 0; for (auto t : thr) if (t->id && !t->actor && t->st != EXITED) ++n; return n; }
bool actor_done(int id) { return thr[id]->actor_finished; }

bool quiet()
{
  run_start = decisions;
  self->st = QUIET;
  settled = true;
  sync('b', 0);
  schedule(false);
  sync('b', 0);
  return settled;
}

void steps(long n)
{
  run_start = decisions;
  self->steps_left = n;
  self->st = STEPS;
  sync('b', 0);
  schedule(false);
  sync('b', 0);
  self->st = RUN;
}

void advance(long ms) { vnow += ms; }
long now_ms() { return vnow; }
long opportunities() { return opps; }
void yield() { if (managed()) schedule(true); }

void gate_wait(const std::string& k)
{
  if (open_gates.count(k)) return;
  self->st = GATE; self->gate = k;
  schedule(false);
}
void gate_open(const std::string& k) { open_gates.insert(k); }
void set_eintr(int n) { eintr_left = n; }

std::string describe()
{
  std::ostringstream o;
  for (auto t : thr) o << t->id << ":" << st_name[t->st] << (t->actor ? "a" : "") << ",";
  return o.str();
}

void own(int fd) { if (info(fd)) { *info(fd) = FdInfo(); info(fd)->owner = HARNESS; } }
void disown(int fd) { if (info(fd)) *info(fd) = FdInfo(); }

static std::vector<int> open_fds()
{
  std::vector<int> v;
  for (int fd = 0; fd < 1024; ++fd) if (fcntl(fd, F_GETFD) != -1) v.push_back(fd);
  return v;
}
int lib_fds()
{
  int n = 0;
  for (int fd : open_fds()) if (fdi[fd].owner != HARNESS) ++n;
  return n;
}
std::string lib_fd_list()
{
  std::ostringstream o;
  for (int fd : open_fds()) if (fdi[fd].owner != HARNESS) o << fd << "(" << port_of(fd, false) << "-" << port_of(fd, true) << "),";
  return o.str();
}
int last_listen_port() { return listen_port; }
std::string last_listen_ip() { return listen_ip; }
bool (*resolver)(const std::string&, std::string&) = 0;
int listening()
{
  int n = 0;
  for (int fd : open_fds()) if (fdi[fd].owner == LIB && fdi[fd].listen) ++n;
  return n;
}
void conn_limit(int port, long cap, long budget) { limits[port] = Lim{cap, budget}; }
void conn_budget_add(int port, long n) { auto& l = limits[port]; if (n < 0) l.budget = -1; else l.budget = (l.budget < 0 ? 0 : l.budget) + n; }
void hang_connect(bool on)
{
  hanging = on;
  if (on) return;
  for (int fd = 0; fd < 4096; ++fd)
    if (fdi[fd].hang) {
      fdi[fd].hang = false; --n_hang;
      if (real::connect(fd, (sockaddr*)&fdi[fd].to, sizeof fdi[fd].to) != 0 && errno != EINPROGRESS) fdi[fd].soerr = errno;
    }
}
void lib_limit(long cap) { connect_cap = cap; }
void shrink_buf(int b) { shrink = b; }
long accepts() { return n_accepts; }
void fail_accept(int n) { accept_failures = n; }

} // namespace vs

using namespace vs;

// ---------------------------------------------------------------- interposed
extern "C" {

// Whose code an address belongs to, by symbol: the library's, a template's (std, boost) or somebody else's.
enum Whose : unsigned char { UNKNOWN, LIBRARY, TEMPLATE, OTHER };
static Whose whose(const void* pc, bool traced)
{
  static unsigned char* memo[2];
  size_t n = &etext - &__executable_start, i = (const char*)pc - &__executable_start;
  if (i >= n) return OTHER;
  if (!memo[traced]) memo[traced] = (unsigned char*)calloc(n, 1);
  if (!memo[traced][i]) {
    Dl_info d;
    const char* s = dladdr((char*)pc - 1, &d) ? d.dli_sname : 0;
    Whose w = traced ? LIBRARY : OTHER;
    if (s && s[0] == '_' && s[1] == 'Z') {
      s += 2;
      if (*s == 'T') { while (*s && *s != '_') ++s; if (*s) ++s; }
      if (*s == 'N') ++s;
      while (*s == 'K' || *s == 'V' || *s == 'R' || *s == 'O') ++s;
      if (!strncmp(s, "5iqnet", 6) || !strncmp(s, "8iqxmlrpc", 9)) w = LIBRARY;
      else if (!strncmp(s, "St", 2) || !strncmp(s, "5boost", 6) || !strncmp(s, "9__gnu_cxx", 10) || *s == 'S') w = TEMPLATE;
    }
    memo[traced][i] = w;
  }
  return (Whose)memo[traced][i];
}

// Templates are shared between the library and this program; only the library may be preempted in them.
static bool library(Whose w, void** fp)
{
  for (int n = 0; w == TEMPLATE && n < 24; ++n) {
    void** up = (void**)fp[0];
    w = whose(fp[1], false);
    if (up <= fp || up > fp + 8192) break;
    fp = up;
  }
  return w == LIBRARY;
}
bool vs_for_library(const void* pc, void** fp) { return library(whose(pc, true), fp); }
bool vs_called_by_library(const void* pc, void** fp) { return library(whose(pc, false), fp); }

void vs_block(const void* pc, void** fp)
{
  if (--bb_left > 0) return;
  if (!active || !self || nopreempt) { bb_left = 50; return; }
  if (!vs_for_library(pc, fp)) { bb_left = 1; return; }
  rearm_bb();
  int e = errno;
  schedule(true);
  errno = e;
}

int vs_tid() { return active && self ? self->id : -1; }

void __sanitizer_cov_trace_pc() { vs_block(__builtin_return_address(0), (void**)*(void**)__builtin_frame_address(0)); }

// Function-local statics must not be half initialised by a descheduled thread.
int __cxa_guard_acquire(uint64_t* g)
{
  char* b = (char*)g;
  for (;;) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { sync('a', g); return 0; }
    if (!b[1]) { b[1] = 1; ++nopreempt; return 1; }
    if (managed()) schedule(false); else sched_yield();
  }
}
void __cxa_guard_release(uint64_t* g) { char* b = (char*)g; sync('r', g); b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); --nopreempt; }
void __cxa_guard_abort(uint64_t* g) { ((char*)g)[1] = 0; --nopreempt; }

int pthread_once(pthread_once_t* o, void (*f)())
{
  if (!managed()) return REAL(pthread_once)(o, f);
  struct Still { Still() { ++nopreempt; } ~Still() { --nopreempt; } };
  int r;
  { Still s; r = REAL(pthread_once)(o, f); }
  sync('a', o); sync('r', o);
  return r;
}

int pthread_create(pthread_t* pt, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  if (!managed()) return REAL(pthread_create)(pt, at, fn, arg);
  Thr* t = new_thr();
  t->start = fn; t->arg = arg;
  sync('r', t);
  int r = REAL(pthread_create)(&t->pt, at, trampoline, t);
  if (r) { t->st = EXITED; t->managed_done = true; return r; }
  *pt = t->pt;
  schedule(true);
  return 0;
}

int pthread_join(pthread_t pt, void** ret)
{
  if (managed()) {
    Thr* t = 0;
    for (auto x : thr) if (x->id && pthread_equal(x->pt, pt)) t = x;
    if (t && !t->managed_done) { self->st = JOIN; self->joinee = t; schedule(false); }
    if (t) sync('a', t);
  }
  return REAL(pthread_join)(pt, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!managed()) return REAL(pthread_mutex_lock)(m);
  if (in_exe(__builtin_return_address(0)) && !nopreempt) schedule(true);
  for (;;) {
    int r = REAL(pthread_mutex_trylock)(m);
    if (r != EBUSY) { sync('a', m); return r; }
    block_addr(m);
  }
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (managed() && in_exe(__builtin_return_address(0)) && !nopreempt) schedule(true);
  int r = REAL(pthread_mutex_trylock)(m);
  if (!r) sync('a', m);
  return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
  if (!managed()) return REAL(pthread_mutex_timedlock)(m, ts);
  return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  sync('r', m);
  int r = REAL(pthread_mutex_unlock)(m);
  if (managed()) {
    wake_addr(m);
    if (in_exe(__builtin_return_address(0)) && !nopreempt) schedule(true);
  }
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!managed()) return REAL(pthread_rwlock_rdlock)(m);
  for (;;) { int r = REAL(pthread_rwlock_tryrdlock)(m); if (r != EBUSY) { sync('a', m); return r; } block_addr(m); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  if (!managed()) return REAL(pthread_rwlock_wrlock)(m);
  for (;;) { int r = REAL(pthread_rwlock_trywrlock)(m); if (r != EBUSY) { sync('a', m); return r; } block_addr(m); }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  sync('r', m);
  int r = REAL(pthread_rwlock_unlock)(m);
  if (managed()) wake_addr(m);
  return r;
}
int sem_wait(sem_t* s)
{
  if (!managed()) return REAL(sem_wait)(s);
  for (;;) { if (REAL(sem_trywait)(s) == 0) { sync('a', s); return 0; } block_addr(s); }
}
int sem_post(sem_t* s)
{
  sync('r', s);
  int r = REAL(sem_post)(s);
  if (managed()) { wake_addr(s); schedule(true); }
  return r;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if (!managed()) return REAL(pthread_cond_wait)(c, m);
  cond_wait(c, m, -1);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
  if (!managed()) return REAL(pthread_cond_timedwait)(c, m, ts);
  return cond_wait(c, m, to_deadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
  return pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if (!managed()) return REAL(pthread_cond_signal)(c);
  std::vector<Thr*> w;
  for (auto t : thr) if (t->st == COND && t->obj == c && !t->signaled) w.push_back(t);
  if (!w.empty()) w[cfg.mode ? rnd_n(w.size()) : 0]->signaled = true;
  if (!nopreempt) schedule(true);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if (!managed()) return REAL(pthread_cond_broadcast)(c);
  for (auto t : thr) if (t->st == COND && t->obj == c) t->signaled = true;
  if (!nopreempt) schedule(true);
  return 0;
}

int poll(struct pollfd* fds, nfds_t n, int timeout)
{
  if (!managed()) return REAL(poll)(fds, n, timeout);
  for (nfds_t i = 0; i < n; ++i) check_use(fds[i].fd, "poll");
  return do_poll(fds, n, timeout);
}
int __poll_chk(struct pollfd* fds, nfds_t n, int timeout, size_t) { return poll(fds, n, timeout); }
int ppoll(struct pollfd* fds, nfds_t n, const struct timespec* ts, const sigset_t* ss)
{
  if (!managed()) return REAL(ppoll)(fds, n, ts, ss);
  return do_poll(fds, n, ts ? ts->tv_sec * 1000L + ts->tv_nsec / 1000000 : -1);
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv)
{
  if (!managed()) return REAL(select)(n, r, w, e, tv);
  std::vector<pollfd> p;
  for (int fd = 0; fd < n; ++fd) {
    short ev = 0;
    if (r && FD_ISSET(fd, r)) ev |= POLLIN;
    if (w && FD_ISSET(fd, w)) ev |= POLLOUT;
    if (e && FD_ISSET(fd, e)) ev |= POLLPRI;
    if (ev) p.push_back(pollfd{fd, ev, 0});
  }
  int res = do_poll(p.data(), p.size(), tv ? tv->tv_sec * 1000L + tv->tv_usec / 1000 : -1);
  if (res < 0) return res;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  int cnt = 0;
  for (auto& x : p) {
    if (r && (x.events & POLLIN) && (x.revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(x.fd, r); ++cnt; }
    if (w && (x.events & POLLOUT) && (x.revents & (POLLOUT | POLLERR))) { FD_SET(x.fd, w); ++cnt; }
    if (e && (x.events & POLLPRI) && (x.revents & POLLPRI)) { FD_SET(x.fd, e); ++cnt; }
  }
  return cnt;
}
int epoll_wait(int ep, struct epoll_event* ev, int max, int timeout)
{
  if (!managed()) return REAL(epoll_wait)(ep, ev, max, timeout);
  pollfd p = { ep, POLLIN, 0 };
  int r = do_poll(&p, 1, timeout);
  if (r <= 0) return r;
  return REAL(epoll_wait)(ep, ev, max, 0);
}

int clock_gettime(clockid_t id, struct timespec* ts)
{
  if (!active) return syscall(SYS_clock_gettime, id, ts);
  if (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC) return syscall(SYS_clock_gettime, id, ts);
  *ts = id == CLOCK_REALTIME ? base_rt : base_mono;
  ts->tv_sec += vnow / 1000;
  ts->tv_nsec += (vnow % 1000) * 1000000;
  if (ts->tv_nsec >= 1000000000) { ts->tv_sec++; ts->tv_nsec -= 1000000000; }
  return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
static int vsleep(long ms)
{
  self->st = SLEEP; self->deadline = vnow + ms;
  schedule(false);
  self->deadline = -1;
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* rem)
{
  if (!managed()) return REAL(nanosleep)(ts, rem);
  return vsleep(ts->tv_sec * 1000L + (ts->tv_nsec + 999999) / 1000000);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem)
{
  if (!managed()) return REAL(clock_nanosleep)(c, fl, ts, rem);
  if (fl & TIMER_ABSTIME) { long d = to_deadline(ts) - vnow; return vsleep(d < 0 ? 0 : d); }
  return nanosleep(ts, rem);
}
int usleep(useconds_t us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, 0); }
unsigned sleep(unsigned s) { struct timespec ts = { (time_t)s, 0 }; nanosleep(&ts, 0); return 0; }

// ---- name service: names of the scenario get the scenario's answers
static int lookup(const char* name, std::string& as)
{
  as = name ? name : "";
  if (!managed() || !resolver || !name) return 0;
  yield();
  std::string ip;
  bool known = resolver(as, ip);
  yield();
  if (!known) return 0;
  as = ip;
  return ip.empty() ? -1 : 1;
}
int gethostbyname_r(const char* name, struct hostent* h, char* b, size_t n, struct hostent** r, int* e)
{
  std::string as;
  if (lookup(name, as) < 0) { *r = 0; *e = HOST_NOT_FOUND; return 0; }
  int x = REAL(gethostbyname_r)(name ? as.c_str() : name, h, b, n, r, e);
  if (resolver) yield();
  return x;
}
struct hostent* gethostbyname(const char* name)
{
  std::string as;
  if (lookup(name, as) < 0) { h_errno = HOST_NOT_FOUND; return 0; }
  return REAL(gethostbyname)(name ? as.c_str() : name);
}
int getaddrinfo(const char* name, const char* sv, const struct addrinfo* hints, struct addrinfo** r)
{
  std::string as;
  if (lookup(name, as) < 0) return EAI_NONAME;
  return REAL(getaddrinfo)(name ? as.c_str() : name, sv, hints, r);
}

// ---- sockets
int socket(int d, int t, int p)
{
  int fd = REAL(socket)(d, t, p);
  if (active && fd >= 0) new_fd(fd);
  return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t l)
{
  return REAL(bind)(fd, a, l);
}
int listen(int fd, int b)
{
  int r = REAL(listen)(fd, b);
  if (active && r == 0) { int p = port_of(fd, false); if (p) { listen_port = p; sockaddr_in sa; socklen_t sl = sizeof sa; getsockname(fd, (sockaddr*)&sa, &sl); listen_ip = inet_ntoa(sa.sin_addr); if (info(fd)) info(fd)->listen = true; } }
  return r;
}
static int after_accept(int fd)
{
  if (active && fd >= 0) {
    new_fd(fd);
    info(fd)->port = port_of(fd, true);
    ++n_accepts;
    // no waiting for real-time acknowledgements
    int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if (shrink) { setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &shrink, sizeof shrink); }
  }
  return fd;
}
int accept(int fd, struct sockaddr* a, socklen_t* l)
{
  if (managed()) {
    schedule(true);
    if (accept_failures > 0) { --accept_failures; errno = ECONNABORTED; return -1; }
  }
  return after_accept(REAL(accept)(fd, a, l));
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl)
{
  if (managed()) {
    schedule(true);
    if (accept_failures > 0) { --accept_failures; errno = ECONNABORTED; return -1; }
  }
  return after_accept(REAL(accept4)(fd, a, l, fl));
}
int connect(int fd, const struct sockaddr* a, socklen_t l)
{
  if (managed()) schedule(true);
  int r = -1;
  FdInfo* hi = info(fd);
  if (managed() && hanging && hi && hi->owner == LIB && a->sa_family == AF_INET) {
    hi->hang = true; ++n_hang;
    memcpy(&hi->to, a, sizeof hi->to);
    if (!(fcntl(fd, F_GETFL) & O_NONBLOCK)) {
      pollfd p = { fd, POLLOUT, 0 };
      do_poll(&p, 1, -1);
      if (hi->soerr) { errno = hi->soerr; hi->soerr = 0; } else r = 0;
    }
    else errno = EINPROGRESS;
  }
  else r = REAL(connect)(fd, a, l);
  if (active && info(fd)) {
    int one = 1; int e = errno; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); errno = e;
    if (connect_cap > 0 && a->sa_family == AF_INET) info(fd)->cap = connect_cap;
    if (a->sa_family == AF_INET) info(fd)->port = -(int)ntohs(((const sockaddr_in*)a)->sin_port);
  }
  return r;
}
int getsockopt(int fd, int lev, int opt, void* v, socklen_t* l)
{
  FdInfo* i = info(fd);
  if (managed() && i && i->soerr && lev == SOL_SOCKET && opt == SO_ERROR && *l >= sizeof(int)) {
    *(int*)v = i->soerr; i->soerr = 0; *l = sizeof(int);
    return 0;
  }
  return REAL(getsockopt)(fd, lev, opt, v, l);
}
ssize_t send(int fd, const void* b, size_t n, int fl)
{
  if (!managed()) return REAL(send)(fd, b, n, fl);
  check_use(fd, "send");
  if (in_exe(__builtin_return_address(0))) schedule(true);
  return send_some(fd, b, n, [&](const void* p, size_t k) { return REAL(send)(fd, p, k, fl); }, fl & MSG_DONTWAIT);
}
ssize_t write(int fd, const void* b, size_t n)
{
  FdInfo* i = info(fd);
  if (!managed() || !i || i->owner != LIB) return REAL(write)(fd, b, n);
  return send_some(fd, b, n, [&](const void* p, size_t k) { return REAL(write)(fd, p, k); }, false);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl)
{
  FdInfo* i = info(fd);
  if (!managed() || !i || i->owner != LIB || m->msg_iovlen < 1) return REAL(sendmsg)(fd, m, fl);
  schedule(true);
  if (!limit_for(fd) && i->cap <= 0) return REAL(sendmsg)(fd, m, fl);
  size_t k = 0;
  while (k + 1 < m->msg_iovlen && m->msg_iov[k].iov_len == 0) ++k;
  return send(fd, m->msg_iov[k].iov_base, m->msg_iov[k].iov_len, fl);
}
ssize_t recv(int fd, void* b, size_t n, int fl)
{
  if (managed() && in_exe(__builtin_return_address(0))) {
    check_use(fd, "recv");
    schedule(true);
    // a blocking read must not stall the whole process
    FdInfo* i = info(fd);
    if (i && i->owner == LIB && !(fcntl(fd, F_GETFL) & O_NONBLOCK) && !(fl & MSG_DONTWAIT)) {
      pollfd p = { fd, POLLIN, 0 };
      do_poll(&p, 1, -1);
    }
  }
  return REAL(recv)(fd, b, n, fl);
}
ssize_t read(int fd, void* b, size_t n)
{
  FdInfo* i = info(fd);
  if (managed() && i && i->owner == LIB && !(fcntl(fd, F_GETFL) & O_NONBLOCK)) {
    pollfd p = { fd, POLLIN, 0 };
    do_poll(&p, 1, -1);
  }
  return REAL(read)(fd, b, n);
}
int close(int fd)
{
  FdInfo* i = info(fd);
  if (managed()) {
    if (i && i->owner == HARNESS) {
      on_event("badclose foreign");
      errno = EBADF;
      return -1;
    }
    if (fcntl(fd, F_GETFD) == -1) {
      // closing "no descriptor" (-1) is harmless
      if (fd >= 0) on_event("badclose stale");
      errno = EBADF;
      return -1;
    }
  }
  if (i && i->hang) --n_hang;
  if (i) *i = FdInfo();
  int r = REAL(close)(fd);
  if (managed() && in_exe(__builtin_return_address(0))) schedule(true);
  return r;
}

} // extern "C"
