#include "sched.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>

namespace sched {
bool active = false;
bool deadlock_is_fatal = true;
void (*on_deadlock)() = nullptr;

enum State { READY, LOCK, COND, JOIN, DONE };
struct T {
  sem_t go;
  State st = READY;
  void *on = nullptr;
  int join = -1;
  pthread_t p;
  void *(*f)(void *) = nullptr;
  void *arg = nullptr;
};
static std::deque<T> ts;
static thread_local int me = -1;
static std::map<void *, int> owner;                        // mutex -> thread
static std::vector<int> choices_;
static size_t pos_ = 0;
static uint64_t rng_ = 1;
static int stick_ = 0;
static int64_t clock_ = 0;
static int base_ = 0;
static uint64_t rnd() { rng_ ^= rng_ << 13; rng_ ^= rng_ >> 7; rng_ ^= rng_ << 17; return rng_ >> 11; }
int self() { return me; }
int64_t now() { return ++clock_; }

template <typename F> static F real(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

static bool can_run(T &t) {
  if (t.st == READY) return true;
  if (t.st == LOCK) return !owner.count(t.on);
  if (t.st == JOIN) return ts[t.join].st == DONE;
  return false;
}
// pick the next thread and hand over to it; returns when this thread is picked again
static void handover(bool finished = false) {
  std::vector<int> c;
  for (size_t i = 0; i < ts.size(); ++i) if (can_run(ts[i])) c.push_back(i);
  if (c.empty()) {
    if (on_deadlock) on_deadlock();
    std::fprintf(stderr, "deadlock\n");
    std::_Exit(77);
  }
  int pick;
  if (pos_ < choices_.size()) {
    int x = choices_[pos_++];                                // x >= 0: the x-th of the threads that can run; otherwise thread -x of this run
    pick = c[(x >= 0 ? x : static_cast<int>(rnd() >> 1)) % c.size()];
    if (x < 0) for (int y : c) if (y == base_ - x - 1) pick = y;
  } else {
    pick = c[rnd() % c.size()];
    if (stick_ && !finished && (int)(rnd() % 100) < stick_) for (int x : c) if (x == me) pick = me;
  }
  if (pick == me && !finished) return;
  int old = me;
  sem_post(&ts[pick].go);
  if (finished) return;
  while (sem_wait(&ts[old].go) != 0) {}
}
void yield() { if (active && me >= 0) { ++clock_; handover(); } }

void start(const std::vector<int> &choices, uint64_t seed, int stick) {
  choices_ = choices; pos_ = 0; rng_ = seed * 2654435761u + 88172645463325252ull; stick_ = stick; clock_ = 0;
  if (me < 0) {
    ts.emplace_back();
    me = ts.size() - 1;
    sem_init(&ts[me].go, 0, 0);
    ts[me].p = pthread_self();
  }
  base_ = ts.size();
  active = true;
}
void stop() { active = false; }

static void *entry(void *a) {
  me = static_cast<int>(reinterpret_cast<intptr_t>(a));
  while (sem_wait(&ts[me].go) != 0) {}
  void *r = ts[me].f(ts[me].arg);
  ts[me].st = DONE;
  ++clock_;
  handover(true);
  return r;
}
static void take(pthread_mutex_t *m) {
  T &t = ts[me];
  while (owner.count(m)) { t.st = LOCK; t.on = m; handover(); }
  t.st = READY;
  owner[m] = me;
}
}  // namespace sched
using namespace sched;

extern "C" {
int pthread_create(pthread_t *p, const pthread_attr_t *at, void *(*f)(void *), void *arg) {
  static auto fn = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
  if (!active || me < 0) return fn(p, at, f, arg);
  ts.emplace_back();
  int id = ts.size() - 1;
  sem_init(&ts[id].go, 0, 0);
  ts[id].f = f; ts[id].arg = arg;
  int r = fn(p, at, entry, reinterpret_cast<void *>(static_cast<intptr_t>(id)));
  ts[id].p = *p;
  return r;
}
int pthread_join(pthread_t p, void **ret) {
  static auto fn = real<int (*)(pthread_t, void **)>("pthread_join");
  if (active && me >= 0)
    for (size_t i = ts.size(); i-- > 0;)
      if (pthread_equal(ts[i].p, p) && ts[i].f) {
        while (ts[i].st != DONE) { ts[me].st = JOIN; ts[me].join = i; handover(); }
        ts[me].st = READY;
        break;
      }
  return fn(p, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  static auto fn = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
  if (!active || me < 0) return fn(m);
  ++clock_;
  handover();
  take(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  static auto fn = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
  if (!active || me < 0) return fn(m);
  handover();
  if (owner.count(m)) return EBUSY;
  owner[m] = me;
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  static auto fn = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
  if (!active || me < 0) return fn(m);
  owner.erase(m);
  ++clock_;
  handover();
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto fn = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
  if (!active || me < 0) return fn(c, m);
  owner.erase(m);
  ts[me].st = COND; ts[me].on = c;
  if (rnd() % 16 == 0) ts[me].st = READY;                   // a spurious wake-up
  handover();
  take(m);
  return 0;
}
static void wake(pthread_cond_t *c, bool all) {
  std::vector<int> w;
  for (size_t i = 0; i < ts.size(); ++i) if (ts[i].st == COND && ts[i].on == c) w.push_back(i);
  if (w.empty()) return;
  if (all) for (int i : w) ts[i].st = READY;
  else ts[w[rnd() % w.size()]].st = READY;
}
int pthread_cond_signal(pthread_cond_t *c) {
  static auto fn = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
  if (!active || me < 0) return fn(c);
  wake(c, false);
  ++clock_;
  handover();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  static auto fn = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
  if (!active || me < 0) return fn(c);
  wake(c, true);
  ++clock_;
  handover();
  return 0;
}
}
