// The runtime behind code compiled with -fsanitize=thread (the sanitizer's own runtime is not linked).
#include "schedrt.h"
#include "core.h"
#include <cerrno>
#include <csignal>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unordered_map>

namespace {
const int N = 4;
typedef uint32_t Clk;
struct VC { Clk c[N] = {0, 0, 0, 0}; void join(const VC &o) { for (int i = 0; i < N; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum Kind { Run, Mutex, Recursive, Sem, Guard, Once, RwRead, RwWrite, Done };
struct Thread {
    int id = 0;
    pthread_t handle;
    int go = 0; // futex
    Kind wait = Run;
    void *obj = nullptr;
    int need = 0;
    VC vc;
    std::vector<void *> stack;
    std::function<std::string()> fn;
    std::string result;
};
struct Obj { // model of one synchronization object
    int owner = -1, count = 0, readers = 0, state = 0; // mutex: owner/count; rwlock: owner/readers; guard, once: state 0 new, 1 running, 2 done
    bool known = false;
    VC vc;
};
struct Step { uint8_t chosen, enabled, forced; };
const int MAXSTEPS = 16000;
const int MAXWRITTEN = 4000;
struct Result {
    int collect = 0, nWritten = 0, late = 0;
    void *written[MAXWRITTEN];
    int steps = 0, done = 0, atomics = 0, apoints = 0;
    uint64_t accesses = 0, syncs = 0;
    int failed = 0;
    char what[6000];
    char results[N][6000];
    Step trace[MAXSTEPS];
};
Result *R = nullptr;
thread_local Thread *self = nullptr;
thread_local int inside = 0; // the runtime itself
bool active = false;
Thread T[N];
int nThreads = 0, current = -1;
std::vector<std::pair<int, int>> plan; // (step, thread)
std::unordered_map<void *, Obj> *objs;
std::unordered_map<void *, VC> *sync_;
std::unordered_map<void *, int> *touched; // atomics: mask of threads
struct Guarded { Guarded() { inside++; } ~Guarded() { inside--; } };
bool on() { return active && self && !inside; }

void futexWait(int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futexWake(int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

std::string where(const Thread &t, void *pc)
{
    std::string s;
    char b[32];
    snprintf(b, sizeof b, "@%zx", size_t(pc)); s += b;
    for (size_t i = t.stack.size(), n = 0; i-- > 0 && n < 6; n++) { snprintf(b, sizeof b, ",%zx", size_t(t.stack[i])); s += b; }
    return s;
}
[[noreturn]] void report(const std::string &what)
{
    if (!R->failed) { R->failed = 1; snprintf(R->what, sizeof R->what, "%s", what.c_str()); }
    _exit(1);
}
Obj &obj(void *p) { return (*objs)[p]; }
bool enabled(const Thread &t)
{
    switch (t.wait) {
    case Run: return true;
    case Done: return false;
    case Mutex: return obj(t.obj).owner < 0;
    case Recursive: return obj(t.obj).owner < 0 || obj(t.obj).owner == t.id;
    case Sem: return obj(t.obj).count >= t.need;
    case Guard: case Once: return obj(t.obj).state != 1;
    case RwRead: return obj(t.obj).owner < 0;
    case RwWrite: return obj(t.obj).owner < 0 && obj(t.obj).readers == 0;
    }
    return false;
}
// picks the thread that goes on; called by the running thread with its wait condition set
int pick()
{
    int mask = 0, n = 0;
    for (int i = 0; i < nThreads; i++) if (enabled(T[i])) { mask |= 1 << i; n++; }
    if (!mask) {
        bool all = true;
        for (int i = 0; i < nThreads; i++) all &= T[i].wait == Done;
        if (all) return -1;
        std::string s = "deadlock:";
        static const char *k[] = {"runs", "waits for a mutex", "waits for a mutex", "waits for a semaphore", "waits for the initialization of a static object", "waits for call_once", "waits for a read lock", "waits for a write lock", "has ended"};
        for (int i = 0; i < nThreads; i++) s += " thread " + std::to_string(i) + " " + k[T[i].wait] + (T[i].wait == Done ? "" : " " + where(T[i], nullptr)) + ";";
        report(s);
    }
    int def = current >= 0 && (mask >> current & 1) ? current : -1;
    bool forced = def < 0;
    if (def < 0) for (int i = 1; i <= nThreads && def < 0; i++) { int j = (current + i + nThreads) % nThreads; if (mask >> j & 1) def = j; }
    int step = R->steps, c = def;
    if (n > 1) for (auto &p : plan) if (p.first == step) { c = p.second; if (!(mask >> c & 1)) { fprintf(stderr, "plan does not fit: thread %d not enabled at step %d\n", c, step); _exit(3); } }
    if (step >= MAXSTEPS) { fprintf(stderr, "too many steps\n"); _exit(3); }
    if (n > 1) { R->trace[step] = {uint8_t(c), uint8_t(mask), uint8_t(forced)}; R->steps++; }
    return c;
}
void switchTo(int c)
{
    Thread *me = self;
    if (c == me->id) return;
    current = c;
    __atomic_store_n(&T[c].go, 1, __ATOMIC_SEQ_CST);
    futexWake(&T[c].go);
    if (me->wait == Done) return;
    while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) futexWait(&me->go, 0);
    me->go = 0;
}
// scheduling point: the thread may go on when its condition holds
void point(Kind k, void *o, int need = 0)
{
    Guarded g;
    self->wait = k; self->obj = o; self->need = need;
    R->syncs++;
    int c = pick();
    switchTo(c);
    self->wait = Run;
}
void acquireEdge(Obj &o) { self->vc.join(o.vc); }
void releaseEdge(Obj &o) { o.vc.join(self->vc); self->vc.c[self->id]++; }

// ---- shadow memory ------------------------------------------------------------------------------------------------------
struct Cell { Clk w; Clk r[N]; uint8_t wt; void *wpc; void *rpc; };
const size_t PAGE = 1024;
struct Page { Cell c[PAGE]; };
std::unordered_map<uintptr_t, Page *> *pages;
uintptr_t lastKey = UINTPTR_MAX;
Page *lastPage = nullptr;
Page *page(uintptr_t a, bool make)
{
    uintptr_t k = a / PAGE;
    if (k == lastKey) return lastPage;
    auto it = pages->find(k);
    Page *p = it == pages->end() ? nullptr : it->second;
    if (!p) {
        if (!make) return nullptr;
        p = static_cast<Page *>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        (*pages)[k] = p;
    }
    lastKey = k; lastPage = p;
    return p;
}
void forget(void *p, size_t n)
{
    if (!active || !n) return;
    Guarded g;
    uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
    while (a < e) {
        size_t off = a % PAGE, m = std::min(PAGE - off, size_t(e - a));
        if (Page *q = page(a, false)) memset(&q->c[off], 0, m * sizeof(Cell));
        a += m;
    }
}
void access(void *p, size_t n, bool write, void *pc)
{
    if (!on()) return;
    Guarded g;
    R->accesses++;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    int me = self->id;
    for (size_t i = 0; i < n; i++, a++) {
        Cell &c = page(a, true)->c[a % PAGE];
        if (c.w && c.wt != me && c.w > self->vc.c[c.wt])
            report(std::string("data race: ") + (write ? "write" : "read") + " by thread " + std::to_string(me) + " " + where(*self, pc) + " is not ordered after the write by thread " + std::to_string(c.wt) + " @" + [&] { char b[32]; snprintf(b, sizeof b, "%zx", size_t(c.wpc)); return std::string(b); }());
        if (write) {
            for (int t = 0; t < nThreads; t++) if (t != me && c.r[t] && c.r[t] > self->vc.c[t])
                report("data race: write by thread " + std::to_string(me) + " " + where(*self, pc) + " is not ordered after the read by thread " + std::to_string(t) + " @" + [&] { char b[32]; snprintf(b, sizeof b, "%zx", size_t(c.rpc)); return std::string(b); }());
            c.w = self->vc.c[me]; c.wt = uint8_t(me); c.wpc = pc;
            for (auto &r : c.r) r = 0;
        } else { c.r[me] = self->vc.c[me]; c.rpc = pc; }
    }
}
// ---- atomics --------------------------------------------------------------------------------------------------------------
bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
bool isHeap(void *p)
{
    // objects of the program and its libraries are shared from the start, others once a second thread touches them
    Dl_info i;
    return !dladdr(p, &i);
}
void atomicPoint(void *p, bool write)
{
    R->atomics++;
    bool shared;
    {
        Guarded g;
        auto it = touched->find(p);
        if (it == touched->end()) it = touched->insert({p, isHeap(p) ? 0 : 0x80}).first;
        it->second |= 1 << self->id;
        int m = it->second;
        shared = (m & 0x80) || (m & (m - 1));
        // objects of the program that no thread ever changes need no scheduling points
        if (m & 0x80) {
            bool known = false;
            for (int i = 0; i < R->nWritten && !known; i++) known = R->written[i] == p;
            if (write && !known) { if (R->collect && R->nWritten < MAXWRITTEN) { R->written[R->nWritten++] = p; } else R->late++; }
            if (!R->collect && !known && R->nWritten < MAXWRITTEN) shared = false;
        }
    }
    if (shared) { R->apoints++; point(Run, p); }
}
void atomicSync(void *p, bool a, bool r, bool rmw)
{
    Guarded g;
    VC &v = (*sync_)[p];
    if (a) self->vc.join(v);
    if (r) { if (rmw) v.join(self->vc); else v = self->vc; self->vc.c[self->id]++; }
    else if (!rmw && !a) v = VC(); // relaxed store
}
}
#define ATOMICS(B, TY) \
extern "C" TY __tsan_atomic##B##_load(const volatile TY *p, int mo) { if (on()) { atomicPoint((void *)p, false); } TY v = __atomic_load_n(p, __ATOMIC_SEQ_CST); if (on()) { Guarded g; if (acq(mo)) self->vc.join((*sync_)[(void *)p]); } return v; } \
extern "C" void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, false, rel(mo), false); } __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, acq(mo), rel(mo), true); } return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, acq(mo), rel(mo), true); } return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, acq(mo), rel(mo), true); } return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, acq(mo), rel(mo), true); } return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, acq(mo), rel(mo), true); } return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
extern "C" TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { if (on()) { atomicPoint((void *)p, true); atomicSync((void *)p, acq(mo), rel(mo), true); } return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int mo, int fmo) { \
    if (on()) atomicPoint((void *)p, true); \
    bool ok = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (on()) { if (ok) atomicSync((void *)p, acq(mo), rel(mo), true); else if (acq(fmo)) { Guarded g; self->vc.join((*sync_)[(void *)p]); } } \
    return ok; } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fmo); } \
extern "C" TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY c, TY v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fmo); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void *pc) { if (active && self) { Guarded g; self->stack.push_back(pc); } }
extern "C" void __tsan_func_exit() { if (active && self && !self->stack.empty()) self->stack.pop_back(); }
#define PC __builtin_return_address(0)
#define ACCESS(S) \
extern "C" void __tsan_read##S(void *p) { access(p, S, false, PC); } \
extern "C" void __tsan_write##S(void *p) { access(p, S, true, PC); } \
extern "C" void __tsan_unaligned_read##S(void *p) { access(p, S, false, PC); } \
extern "C" void __tsan_unaligned_write##S(void *p) { access(p, S, true, PC); } \
extern "C" void __tsan_volatile_read##S(void *p) { access(p, S, false, PC); } \
extern "C" void __tsan_volatile_write##S(void *p) { access(p, S, true, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
extern "C" void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
extern "C" void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
extern "C" void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
extern "C" void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }

// ---- memory: a new block has no history ------------------------------------------------------------------------------------
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
__attribute__((visibility("default"))) void *malloc(size_t n) { void *p = __libc_malloc(n); if (active && self && !inside && p) forget(p, malloc_usable_size(p)); return p; }
__attribute__((visibility("default"))) void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (active && self && !inside && p) forget(p, malloc_usable_size(p)); return p; }
__attribute__((visibility("default"))) void *realloc(void *o, size_t n)
{
    if (active && self && !inside && o) forget(o, malloc_usable_size(o));
    void *p = __libc_realloc(o, n);
    if (active && self && !inside && p) forget(p, malloc_usable_size(p));
    return p;
}
__attribute__((visibility("default"))) void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (active && self && !inside && p) forget(p, malloc_usable_size(p)); return p; }
__attribute__((visibility("default"))) int posix_memalign(void **r, size_t a, size_t n) { *r = aligned_alloc(a, n); return *r ? 0 : ENOMEM; }
__attribute__((visibility("default"))) void free(void *p) { if (active && self && !inside && p) forget(p, malloc_usable_size(p)); __libc_free(p); }
}

// ---- synchronization operations of Qt, pthreads and the C++ runtime ----------------------------------------------------------
namespace {
template <class F> F next(const char *sym)
{
    F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, sym));
    if (!f) { fprintf(stderr, "no %s\n", sym); _exit(3); }
    return f;
}
void lockMutex(void *m, bool recursive)
{
    point(recursive ? Recursive : Mutex, m);
    Guarded g;
    Obj &o = obj(m);
    o.owner = self->id; o.count++;
    acquireEdge(o);
}
bool tryMutex(void *m, bool recursive)
{
    point(Run, m);
    Guarded g;
    Obj &o = obj(m);
    if (o.owner >= 0 && !(recursive && o.owner == self->id)) return false;
    o.owner = self->id; o.count++;
    acquireEdge(o);
    return true;
}
void unlockMutex(void *m)
{
    {
        Guarded g;
        Obj &o = obj(m);
        if (o.owner != self->id) report("a mutex is unlocked by a thread that does not hold it " + where(*self, nullptr));
        releaseEdge(o);
        if (--o.count == 0) o.owner = -1;
    }
    point(Run, m);
}
bool recursiveQ(void *m)
{
    static auto f = next<bool (*)(void *)>("_ZNK11QBasicMutex11isRecursiveEv");
    return f(m);
}
}
#define SYM(name, sym) __asm__(sym)
#define EXPORT extern "C" __attribute__((visibility("default")))
// QMutex
extern "C" void vQLock(void *) __asm__("_ZN6QMutex4lockEv");
extern "C" void vQUnlock(void *) __asm__("_ZN6QMutex6unlockEv");
extern "C" bool vQTry(void *, int) __asm__("_ZN6QMutex7tryLockEi");
EXPORT void vQLock(void *m) { if (on()) lockMutex(m, recursiveQ(m)); else next<void (*)(void *)>("_ZN6QMutex4lockEv")(m); }
EXPORT void vQUnlock(void *m) { if (on()) unlockMutex(m); else next<void (*)(void *)>("_ZN6QMutex6unlockEv")(m); }
EXPORT bool vQTry(void *m, int t) { if (!on()) return next<bool (*)(void *, int)>("_ZN6QMutex7tryLockEi")(m, t); if (t < 0) { lockMutex(m, recursiveQ(m)); return true; } return tryMutex(m, recursiveQ(m)); }
// QBasicMutex: the inline fast path failed or has to wake somebody
extern "C" void vBLock(void *) __asm__("_ZN11QBasicMutex12lockInternalEv");
EXPORT void vBLock(void *m)
{
    if (!on()) { next<void (*)(void *)>("_ZN11QBasicMutex12lockInternalEv")(m); return; }
    for (int i = 0;; i++) {
        void *zero = nullptr;
        if (__atomic_compare_exchange_n(static_cast<void **>(m), &zero, reinterpret_cast<void *>(1), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) break;
        // let the others run: a wait is modelled as giving way
        Guarded g;
        int c = -1;
        for (int k = 1; k < nThreads && c < 0; k++) { int j = (self->id + k) % nThreads; if (enabled(T[j])) c = j; }
        if (c < 0 || i > 1000) report("deadlock: thread " + std::to_string(self->id) + " waits for a mutex " + where(*self, nullptr));
        switchTo(c);
    }
    Guarded g;
    self->vc.join((*sync_)[m]);
}
// QSemaphore: the model counts from the real value
extern "C" int vSAvail(const void *) __asm__("_ZNK10QSemaphore9availableEv");
extern "C" void vSAcq(void *, int) __asm__("_ZN10QSemaphore7acquireEi");
extern "C" void vSRel(void *, int) __asm__("_ZN10QSemaphore7releaseEi");
extern "C" bool vSTry(void *, int) __asm__("_ZN10QSemaphore10tryAcquireEi");
extern "C" bool vSTryT(void *, int, int) __asm__("_ZN10QSemaphore10tryAcquireEii");
namespace {
Obj &semaphore(void *s)
{
    Guarded g;
    Obj &o = obj(s);
    if (!o.known) { o.known = true; o.count = next<int (*)(const void *)>("_ZNK10QSemaphore9availableEv")(s); }
    return o;
}
}
EXPORT int vSAvail(const void *s) { if (!on()) return next<int (*)(const void *)>("_ZNK10QSemaphore9availableEv")(s); point(Run, const_cast<void *>(s)); return semaphore(const_cast<void *>(s)).count; }
EXPORT void vSAcq(void *s, int n)
{
    if (!on()) { next<void (*)(void *, int)>("_ZN10QSemaphore7acquireEi")(s, n); return; }
    semaphore(s);
    point(Sem, s, n);
    Guarded g;
    Obj &o = obj(s);
    o.count -= n;
    acquireEdge(o);
}
EXPORT void vSRel(void *s, int n)
{
    if (!on()) { next<void (*)(void *, int)>("_ZN10QSemaphore7releaseEi")(s, n); return; }
    Obj &o = semaphore(s);
    { Guarded g; releaseEdge(o); o.count += n; }
    point(Run, s);
}
EXPORT bool vSTryT(void *s, int n, int t)
{
    if (!on()) return next<bool (*)(void *, int, int)>("_ZN10QSemaphore10tryAcquireEii")(s, n, t);
    if (t < 0) { vSAcq(s, n); return true; }
    point(Run, s);
    Obj &o = semaphore(s);
    Guarded g;
    if (o.count < n) return false;
    o.count -= n;
    acquireEdge(o);
    return true;
}
EXPORT bool vSTry(void *s, int n) { if (!on()) return next<bool (*)(void *, int)>("_ZN10QSemaphore10tryAcquireEi")(s, n); return vSTryT(s, n, 0); }
// QReadWriteLock
namespace {
void lockRead(void *l) { point(RwRead, l); Guarded g; Obj &o = obj(l); o.readers++; acquireEdge(o); }
void lockWrite(void *l) { point(RwWrite, l); Guarded g; Obj &o = obj(l); o.owner = self->id; acquireEdge(o); }
void unlockRw(void *l)
{
    {
        Guarded g;
        Obj &o = obj(l);
        if (o.owner == self->id) o.owner = -1;
        else if (o.readers > 0) o.readers--;
        else report("a lock is released that nobody holds " + where(*self, nullptr));
        releaseEdge(o);
    }
    point(Run, l);
}
}
extern "C" void vRwR(void *) __asm__("_ZN14QReadWriteLock11lockForReadEv");
extern "C" void vRwW(void *) __asm__("_ZN14QReadWriteLock12lockForWriteEv");
extern "C" void vRwU(void *) __asm__("_ZN14QReadWriteLock6unlockEv");
EXPORT void vRwR(void *l) { if (on()) lockRead(l); else next<void (*)(void *)>("_ZN14QReadWriteLock11lockForReadEv")(l); }
EXPORT void vRwW(void *l) { if (on()) lockWrite(l); else next<void (*)(void *)>("_ZN14QReadWriteLock12lockForWriteEv")(l); }
EXPORT void vRwU(void *l) { if (on()) unlockRw(l); else next<void (*)(void *)>("_ZN14QReadWriteLock6unlockEv")(l); }
// pthreads (std::mutex, std::shared_mutex, std::call_once)
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { if (!on()) return next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock")(m); lockMutex(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return 0; }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) { if (!on()) return next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock")(m); return tryMutex(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY; }
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) { if (!on()) return next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock")(m); unlockMutex(m); return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) { if (!on()) return next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock")(l); lockRead(l); return 0; }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) { if (!on()) return next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock")(l); lockWrite(l); return 0; }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) { if (!on()) return next<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock")(l); unlockRw(l); return 0; }
EXPORT int pthread_once(pthread_once_t *c, void (*fn)())
{
    if (!on()) return next<int (*)(pthread_once_t *, void (*)())>("pthread_once")(c, fn);
    if (*c & 2) { point(Run, c); Guarded g; acquireEdge(obj(c)); return 0; } // done (also before the threads started)
    point(Once, c);
    { Guarded g; Obj &o = obj(c); acquireEdge(o); if (o.state == 2) return 0; o.state = 1; }
    struct Undo { pthread_once_t *c; bool ok = false; ~Undo() { { Guarded g; Obj &o = obj(c); o.state = ok ? 2 : 0; if (ok) *c = 2; releaseEdge(o); } } } u{c};
    fn();
    u.ok = true;
    return 0;
}
// static objects of functions
extern "C" int vGuard_acquire(uint64_t *) __asm__("__cxa_guard_acquire");
EXPORT int vGuard_acquire(uint64_t *g)
{
    char *b = reinterpret_cast<char *>(g);
    if (!on()) { return *b ? 0 : 1; } // single-threaded phases and the runtime itself
    point(Guard, g);
    Guarded x;
    Obj &o = obj(g);
    acquireEdge(o);
    if (*b) return 0;
    o.state = 1;
    return 1;
}
extern "C" void vGuard_release(uint64_t *) __asm__("__cxa_guard_release");
EXPORT void vGuard_release(uint64_t *g)
{
    char *b = reinterpret_cast<char *>(g);
    if (!on()) { *b = 1; return; }
    {
        Guarded x;
        Obj &o = obj(g);
        o.state = 2;
        releaseEdge(o);
        (*sync_)[g].join(o.vc); // readers of the guard byte
        *b = 1;
    }
    point(Run, g);
}
extern "C" void vGuard_abort(uint64_t *) __asm__("__cxa_guard_abort");
EXPORT void vGuard_abort(uint64_t *g)
{
    if (!on()) return;
    { Guarded x; Obj &o = obj(g); o.state = 0; releaseEdge(o); }
    point(Run, g);
}
// registries inside Qt are locked by Qt itself; the order that gives is modelled as one lock
namespace { char metaTypes; void metaTypeOrder() { if (!on()) return; Guarded g; Obj &o = obj(&metaTypes); acquireEdge(o); releaseEdge(o); } }
#define QTREG(name, sym, RET, ARGS, CALL) extern "C" RET name ARGS __asm__(sym); EXPORT RET name ARGS { metaTypeOrder(); auto r = next<RET (*) ARGS>(sym) CALL; metaTypeOrder(); return r; }
QTREG(vMtConv, "_ZN9QMetaType25registerConverterFunctionEPKN9QtPrivate25AbstractConverterFunctionEii", bool, (void *f, int a, int b), (f, a, b))
QTREG(vMtConvert, "_ZN9QMetaType7convertEPKviPvi", bool, (const void *f, int a, void *t, int b), (f, a, t, b))
QTREG(vMtHas, "_ZN9QMetaType30hasRegisteredConverterFunctionEii", bool, (int a, int b), (a, b))
QTREG(vVarConvert, "_ZN8QVariant7convertEi", bool, (void *v, int t), (v, t))
QTREG(vVarConvert2, "_ZNK8QVariant7convertEiPv", bool, (const void *v, int t, void *p), (v, t, p))
QTREG(vVarCan, "_ZNK8QVariant10canConvertEi", bool, (const void *v, int t), (v, t))

// ---- one schedule -------------------------------------------------------------------------------------------------------------
namespace {
void *threadMain(void *p)
{
    Thread *t = static_cast<Thread *>(p);
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) futexWait(&t->go, 0);
    t->go = 0;
    self = t;
    std::string r;
    try { r = t->fn(); }
    catch (const std::exception &e) { Guarded g; r = std::string("exception ") + e.what(); }
    catch (...) { Guarded g; r = "exception"; }
    Guarded g;
    t->result = r;
    t->wait = Done;
    int c = pick();
    if (c < 0) { __atomic_store_n(&R->done, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &R->done, FUTEX_WAKE, 100, nullptr, nullptr, 0); }
    else switchTo(c);
    self = nullptr; // what threads do when they exit is not part of the schedule
    while (!__atomic_load_n(&R->done, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &R->done, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    return nullptr;
}
// runs in the child
void run(const SchedScenario &s, const std::vector<int> &which)
{
    s.setup();
    objs = new std::unordered_map<void *, Obj>;
    sync_ = new std::unordered_map<void *, VC>;
    touched = new std::unordered_map<void *, int>;
    pages = new std::unordered_map<uintptr_t, Page *>;
    nThreads = int(which.size());
    for (int i = 0; i < nThreads; i++) {
        T[i].id = i;
        T[i].fn = s.threads[size_t(which[size_t(i)])];
        T[i].vc.c[i] = 1;
        if (pthread_create(&T[i].handle, nullptr, threadMain, &T[i])) _exit(3);
    }
    active = true;
    inside = 0;
    current = -1;
    {
        Guarded g;
        int c = pick();
        current = c;
        __atomic_store_n(&T[c].go, 1, __ATOMIC_SEQ_CST);
        futexWake(&T[c].go);
    }
    while (!__atomic_load_n(&R->done, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &R->done, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    active = false;
    for (int i = 0; i < nThreads; i++) { pthread_join(T[i].handle, nullptr); snprintf(R->results[i], sizeof R->results[i], "%s", T[i].result.c_str()); }
    if (s.after) {
        std::string a = s.after();
        if (!a.empty()) report("afterwards: " + a);
    }
    _exit(0);
}
std::string symbolize(const std::string &text)
{
    // @pc,frame,frame -> function names
    std::string out;
    char exe[512];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    exe[n > 0 ? n : 0] = 0;
    Dl_info di;
    uintptr_t base = 0;
    if (dladdr(reinterpret_cast<void *>(&symbolize), &di)) base = reinterpret_cast<uintptr_t>(di.dli_fbase);
    for (size_t i = 0; i < text.size();) {
        if (text[i] != '@') { out += text[i++]; continue; }
        i++;
        std::string list;
        while (i < text.size() && (isxdigit(text[i]) || text[i] == ',')) list += text[i++];
        std::string cmd = std::string("addr2line -fCse ") + exe;
        size_t p = 0;
        while (p < list.size()) {
            size_t e = list.find(',', p);
            if (e == std::string::npos) e = list.size();
            uintptr_t a = strtoull(list.substr(p, e - p).c_str(), nullptr, 16);
            char b[40];
            if (a > base) { snprintf(b, sizeof b, " 0x%zx", size_t(a - base - 1)); cmd += b; }
            p = e + 1;
        }
        FILE *f = popen((cmd + " 2>/dev/null").c_str(), "r");
        out += "(";
        char line[1000];
        bool fn = true, first = true;
        std::string name;
        while (f && fgets(line, sizeof line, f)) {
            std::string l(line);
            while (!l.empty() && (l.back() == '\n')) l.pop_back();
            if (fn) name = l.substr(0, 120);
            else { out += (first ? "" : " < ") + name + " " + l; first = false; }
            fn = !fn;
        }
        if (f) pclose(f);
        out += ")";
    }
    return out;
}
struct Outcome { bool ok; std::vector<Step> trace; std::vector<std::string> results; std::string what; };
Outcome schedule(const SchedScenario &s, const std::vector<std::pair<int, int>> &p, const std::vector<int> &which)
{
    R->steps = R->done = R->failed = R->atomics = R->apoints = 0;
    R->accesses = R->syncs = 0;
    R->what[0] = 0;
    for (auto &r : R->results) r[0] = 0;
    fflush(nullptr);
    pid_t c = fork();
    if (c < 0) _exit(3);
    if (c == 0) { alarm(30); plan = p; run(s, which); }
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
    if (!o.ok) {
        if (R->failed) o.what = symbolize(R->what);
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) o.what = "does not end";
        else o.what = WIFSIGNALED(st) ? std::string("ends with signal ") + strsignal(WTERMSIG(st)) : "ends with " + std::to_string(WEXITSTATUS(st));
    }
    for (int i = 0; i < R->steps; i++) o.trace.push_back(R->trace[i]);
    for (size_t i = 0; i < which.size(); i++) o.results.push_back(R->results[i]);
    if (getenv("SCHEDDBG")) fprintf(stderr, "%s: steps %d atomics %d atomic points %d syncs %d\n", s.name.c_str(), R->steps, R->atomics, R->apoints, int(R->syncs));
    CORE.count("accesses", R->accesses);
    CORE.count("sync operations", R->syncs);
    return o;
}
}
// Level by level: first every scenario with one deviation from its default schedule, then with two, ... A level that would exceed the
// budget of the process is left out as a whole (and counted), so that the run ends in time whatever the code does.
void schedExplore(std::vector<SchedScenario> scenarios)
{
    R = static_cast<Result *>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    bool only = CORE.only != UINT64_MAX;
    if (only) CORE.next = UINT64_MAX;
    uint64_t used = 0, budget = CORE.thorough() ? 150000 : 20000;
    typedef std::vector<std::pair<int, int>> Plan;
    struct Known { std::vector<std::string> alone; std::vector<void *> written; std::vector<Plan> level; };
    std::vector<Known> known(scenarios.size());
    auto threadsOf = [&](size_t k) { std::vector<int> all; for (size_t i = 0; i < scenarios[k].threads.size(); i++) all.push_back(int(i)); return all; };
    auto load = [&](size_t k) { R->nWritten = int(known[k].written.size()); for (int i = 0; i < R->nWritten; i++) R->written[i] = known[k].written[size_t(i)]; };
    auto explore = [&](size_t k, const Plan &p, std::vector<Plan> *children) {
        auto &s = scenarios[k];
        auto all = threadsOf(k);
        uint64_t id = uint64_t(k) << 48;
        for (size_t i = 0; i < p.size(); i++) id |= uint64_t((p[i].first + 1) << 2 | p[i].second) << (16 * i);
        CORE.cur = id; CORE.slot[0] = id; CORE.slot[1] = CORE.slot[1] + 1;
        load(k);
        auto o = schedule(s, p, all);
        used++;
        std::string d = s.name + ", switches";
        for (auto &x : p) d += " step " + std::to_string(x.first) + " to thread " + std::to_string(x.second);
        CORE.desc = d;
        if (!o.ok) { CORE.fail(d + ": " + o.what); return; }
        for (size_t i = 0; i < all.size(); i++) if (o.results[i] != known[k].alone[i]) { CORE.fail(d + ": thread " + std::to_string(i) + " obtains " + o.results[i].substr(0, 400) + " instead of " + known[k].alone[i].substr(0, 400)); return; }
        if (!p.empty() || CORE.shard == 0 || only) {
            CORE.count("evaluations"); CORE.count("transitions", o.trace.size() + 1); CORE.next++;
            if (!p.empty()) CORE.count("nontrivial");
            std::string st = s.name;
            for (auto &t : o.trace) { st += char('0' + t.chosen); st += char('0' + t.enabled); }
            CORE.state(st);
            CORE.sample(d);
        }
        if (!children || int(p.size()) >= s.deviations) return;
        for (int i = p.empty() ? 0 : p.back().first + 1; i < int(o.trace.size()); i++)
            for (int t = 0; t < int(all.size()); t++)
                if (t != o.trace[size_t(i)].chosen && (o.trace[size_t(i)].enabled >> t & 1)) {
                    if (p.empty() && Core::hash(std::to_string(k) + "," + std::to_string(i) + "," + std::to_string(t)) % CORE.shards != CORE.shard) continue;
                    children->push_back(p);
                    children->back().push_back({i, t});
                }
    };
    for (size_t k = 0; k < scenarios.size() && !CORE.failed; k++) {
        auto &s = scenarios[k];
        if (only && (CORE.only >> 48) != k) continue;
        // what each thread obtains alone
        R->collect = 1; R->nWritten = 0; R->late = 0;
        for (int i : threadsOf(k)) {
            CORE.cur = uint64_t(k) << 48; CORE.slot[0] = CORE.cur; CORE.slot[1] = CORE.slot[1] + 1;
            auto o = schedule(s, {}, {i});
            if (!o.ok) { CORE.fail(s.name + ": thread " + std::to_string(i) + " alone: " + o.what); return; }
            known[k].alone.push_back(o.results[0]);
            if (o.results[0].compare(0, 9, "exception") == 0 || o.results[0].empty()) { CORE.fail(s.name + ": thread " + std::to_string(i) + " alone: " + o.results[0]); return; }
        }
        schedule(s, {}, threadsOf(k));
        R->collect = 0; R->late = 0;
        known[k].written.assign(R->written, R->written + R->nWritten);
        Plan p;
        if (only) for (int i = 0; i < 3; i++) { int v = int(CORE.only >> (16 * i) & 0xffff); if (v) p.push_back({(v >> 2) - 1, v & 3}); }
        explore(k, p, only ? nullptr : &known[k].level);
    }
    for (int d = 1; d <= 3; d++)
        for (size_t k = 0; k < scenarios.size() && !CORE.failed; k++) {
            std::vector<Plan> todo;
            todo.swap(known[k].level);
            if (todo.empty()) continue;
            if (used + todo.size() > budget) { CORE.count("levels left out"); continue; }
            for (auto &p : todo) { explore(k, p, &known[k].level); if (CORE.failed) break; }
        }
    CORE.count("writes to atomics that had no scheduling points", uint64_t(R->late));
}
