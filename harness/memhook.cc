// Entry points the compiler calls at every memory access of the library when it
// is built with -fsanitize=thread.  No detector is behind them: each access is an
// opportunity for a thread switch, and, when asked for, is recorded together with
// the synchronisation the scheduler sees, so that the order of accesses can be judged.
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <functional>
#include <malloc.h>
#include <map>
#include <pthread.h>
#include <set>
#include <string>
#include <vector>

extern "C" {
void vs_block(const void*, void**);
bool vs_for_library(const void*, void**);
bool vs_called_by_library(const void*, void**);
int vs_tid();
extern void (*vs_sync)(char, const void*, int);
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
}

namespace {

// memory of the recorder itself stays out of the record
template <class T> struct Raw {
  typedef T value_type;
  Raw() {}
  template <class U> Raw(const Raw<U>&) {}
  T* allocate(size_t n) { return (T*)__libc_malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  template <class U> bool operator ==(const Raw<U>&) const { return true; }
  template <class U> bool operator !=(const Raw<U>&) const { return false; }
};

struct Acc { int at; short tid; bool write; const void* pc; };   // at: number of synchronisation events before
typedef std::vector<Acc, Raw<Acc>> Accs;
struct Sync { char what; const void* obj; int tid; };
typedef std::map<uintptr_t, Accs, std::less<uintptr_t>, Raw<std::pair<const uintptr_t, Accs>>> Locs;

bool on = false, busy = false;
Locs* locs;
std::vector<Accs, Raw<Accs>>* done;      // of memory that was given back
std::vector<Sync, Raw<Sync>>* syncs;
struct Stack { uintptr_t lo, hi; };
std::vector<Stack, Raw<Stack>>* stacks;
__thread bool know_stack = false;

bool shared(const Accs& a)
{
  bool two = false, w = false;
  for (auto& x : a) { two |= x.tid != a[0].tid; w |= x.write; }
  return two && w;
}

void note(uintptr_t a, bool write, int tid, const void* pc)
{
  Accs& v = (*locs)[a];
  for (size_t i = v.size(); i-- > 0 && v[i].at == (int)syncs->size();)
    if (v[i].tid == tid && v[i].write >= write) return;
  v.push_back(Acc{(int)syncs->size(), (short)tid, write, pc});
}

void retire(uintptr_t lo, uintptr_t hi)
{
  auto b = locs->lower_bound(lo), e = b;
  for (; e != locs->end() && e->first < hi; ++e) if (shared(e->second)) done->push_back(e->second);
  locs->erase(b, e);
}

void access(const void* p, bool write, const void* pc, void** fp)
{
  int t;
  if (!on || busy || (t = vs_tid()) < 0) return;
  busy = true;
  if (!know_stack) {
    know_stack = true;
    pthread_attr_t at; void* lo; size_t n;
    if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &lo, &n); stacks->push_back(Stack{(uintptr_t)lo, (uintptr_t)lo + n}); pthread_attr_destroy(&at); }
  }
  uintptr_t a = (uintptr_t)p;
  bool st = false;
  for (auto& s : *stacks) st |= a >= s.lo && a < s.hi;
  if (!st && vs_for_library(pc, fp)) note(a, write, t, pc);
  busy = false;
}

void on_sync(char w, const void* o, int t)
{
  if (!on || busy) return;
  busy = true;
  syncs->push_back(Sync{w, o, t});
  busy = false;
}

void given(void* p, size_t n)
{
  if (!on || busy || !p) return;
  busy = true; retire((uintptr_t)p, (uintptr_t)p + n); busy = false;
}

void taken(void* p)
{
  int t;
  if (!on || busy || !p || (t = vs_tid()) < 0) return;
  busy = true;
  uintptr_t lo = (uintptr_t)p, hi = lo + malloc_usable_size(p);
  for (auto i = locs->lower_bound(lo); i != locs->end() && i->first < hi; ++i) note(i->first, true, t, 0);
  retire(lo, hi);
  busy = false;
}

} // namespace

extern "C" {

void hb_start()
{
  locs = new Locs; done = new std::vector<Accs, Raw<Accs>>; syncs = new std::vector<Sync, Raw<Sync>>; stacks = new std::vector<Stack, Raw<Stack>>;
  vs_sync = on_sync;
  on = true;
}

// Memory with the same history is one location.  Synchronisation that concerns one thread only is left out.
void hb_dump(const std::function<void(const std::string&)>& out)
{
  if (!on) return;
  on = false;
  for (auto& l : *locs) if (shared(l.second)) done->push_back(l.second);
  std::map<std::vector<std::pair<int, int>>, const Accs*> groups;
  for (auto& a : *done) {
    std::vector<std::pair<int, int>> k;
    for (auto& x : a) k.push_back({x.at, x.tid * 2 + x.write});
    groups.insert({k, &a});
  }
  std::map<const void*, std::set<int>> users;
  for (auto& s : *syncs) if (s.obj) users[s.obj].insert(s.tid);
  std::map<int, std::vector<std::string>> acc;
  int n = 0;
  for (auto& g : groups) {
    ++n;
    for (auto& x : *g.second) {
      Dl_info d;
      const char* s = x.pc && dladdr((char*)x.pc - 1, &d) && d.dli_sname ? d.dli_sname : "-";
      char b[400];
      snprintf(b, sizeof b, "hb %c %d x%d %.300s", x.write ? 'W' : 'R', x.tid, n, s);
      acc[x.at].push_back(b);
    }
  }
  std::map<const void*, int> names;
  int last = acc.empty() ? -1 : acc.rbegin()->first;
  for (int i = 0; i <= last; ++i) {
    if (acc.count(i)) for (auto& l : acc[i]) out(l);
    if (i == last) break;
    Sync& s = (*syncs)[i];
    if (s.what == 'b') { out("hb b 0 -"); continue; }
    if (users[s.obj].size() < 2) continue;
    if (!names.count(s.obj)) { int k = names.size() + 1; names[s.obj] = k; }
    out(std::string("hb ") + s.what + " " + std::to_string(s.tid) + " m" + std::to_string(names[s.obj]));
  }
  out("hbend " + std::to_string(groups.size()) + " " + std::to_string(syncs->size()));
}

void* malloc(size_t n) { void* p = __libc_malloc(n); given(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); given(p, a * b); return p; }
void* realloc(void* q, size_t n) { taken(q); void* p = __libc_realloc(q, n); given(p, n); return p; }
void free(void* p) { taken(p); __libc_free(p); }

#define PC __builtin_return_address(0)
#define FP ((void**)*(void**)__builtin_frame_address(0))
#define P vs_block(PC, FP)
#define A(p, w) vs_block(PC, FP); access((const void*)(p), w, PC, FP)
#define S(p) vs_block(PC, FP); on_atomic((const void*)(p))
static void on_atomic(const void* p) { int t = vs_tid(); if (on && t >= 0) { on_sync('a', p, t); on_sync('r', p, t); } }

void __sanitizer_set_death_callback(void (*)()) {}
void __tsan_init() {}
void __tsan_func_entry(void*) { P; }
void __tsan_func_exit() { P; }
#define RW(n) void __tsan_read##n(void* p) { A(p, false); } void __tsan_write##n(void* p) { A(p, true); } \
  void __tsan_unaligned_read##n(void* p) { A(p, false); } void __tsan_unaligned_write##n(void* p) { A(p, true); } \
  void __tsan_volatile_read##n(void* p) { A(p, false); } void __tsan_volatile_write##n(void* p) { A(p, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { A(p, false); } void __tsan_unaligned_volatile_write##n(void* p) { A(p, true); } \
  void __tsan_read_write##n(void* p) { A(p, true); } void __tsan_unaligned_read_write##n(void* p) { A(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { A(p, false); }
void __tsan_write_range(void* p, size_t) { A(p, true); }
void __tsan_vptr_update(void** p, void*) { A(p, true); }
void __tsan_vptr_read(void** p) { A(p, false); }

// Containers are linked by functions of the C++ library, which is not instrumented.
#define MINE bool mine = !busy && vs_called_by_library(PC, FP)
#define L(p, w) if (mine) { A(p, w); }
struct Node { Node* next; Node* prev; };
void list_hook(Node* self, Node* pos) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void list_hook(Node* self, Node* pos)
{
  MINE;
  L(&pos->prev, true); L(&pos->prev->next, true);
  self->next = pos; self->prev = pos->prev;
  pos->prev->next = self;
  if (mine) P;
  pos->prev = self;
}
void list_unhook(Node* self) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void list_unhook(Node* self)
{
  MINE;
  L(&self->prev->next, true); L(&self->next->prev, true);
  Node *n = self->next, *p = self->prev;
  p->next = n;
  if (mine) P;
  n->prev = p;
}
void tree_insert(bool left, void* x, void* p, void** head) __asm__("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void tree_insert(bool left, void* x, void* p, void** head)
{
  MINE;
  static void (*real)(bool, void*, void*, void**) = (void (*)(bool, void*, void*, void**))dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
  for (int i = 1; i < 4; ++i) { L(head + i, true); }
  real(left, x, p, head);
}
void* tree_erase(void* x, void** head) __asm__("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
void* tree_erase(void* x, void** head)
{
  MINE;
  static void* (*real)(void*, void**) = (void* (*)(void*, void**))dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
  for (int i = 1; i < 4; ++i) { L(head + i, true); }
  return real(x, head);
}

#define SC __ATOMIC_SEQ_CST
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* a, int) { S(a); return __atomic_load_n(a, SC); } \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { S(a); __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { S(a); return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { S(a); return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { S(a); return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { S(a); return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { S(a); return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { S(a); return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { S(a); return __atomic_fetch_nand(a, v, SC); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { S(a); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { S(a); return __atomic_compare_exchange_n(a, c, v, false, SC, SC); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { S(a); __atomic_compare_exchange_n(a, &c, v, false, SC, SC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int) {}
}
