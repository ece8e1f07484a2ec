// Histories of k2's hash tables (one thread, and several threads under a controlled scheduler), of its thread pool and of
// its semaphores.  One command per line, one JSON line per answer; decides nothing.
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "hash_ops.h"
#include "k2/csrc/context.h"
#include "k2/csrc/semaphore.h"
#include "k2/csrc/thread_pool.h"
#include "sched.h"

using U = uint64_t;
struct In {
  std::istringstream s;
  explicit In(const std::string &l) : s(l) {}
  std::string word() { std::string w; s >> w; return w; }
  int64_t i() { int64_t x; if (!(s >> x)) throw std::logic_error("protocol"); return x; }
  U u() { std::string w; s >> w; return std::stoull(w, nullptr, 16); }
};
static std::string hx(U x) { std::ostringstream o; o << "\"" << std::hex << x << "\""; return o.str(); }

struct Ev { int thread; std::string op; int64_t t0, t1; U k, v; int ok; U out; int64_t loc; };
static std::vector<Ev> evs;
static std::string finish(const char *how) {
  std::ostringstream o;
  o << "{\"end\":\"" << how << "\",\"log\":[";
  for (size_t i = 0; i < evs.size(); ++i) {
    auto &e = evs[i];
    o << (i ? "," : "") << "{\"th\":" << e.thread << ",\"op\":\"" << e.op << "\",\"t0\":" << e.t0 << ",\"t1\":" << e.t1 << ",\"k\":" << hx(e.k) << ",\"v\":" << hx(e.v) << ",\"ok\":" << e.ok
      << ",\"out\":" << hx(e.out) << ",\"loc\":" << e.loc << "}";
  }
  o << "]}";
  return o.str();
}
static void dead() { sched::active = false; std::cout << finish("deadlock") << std::endl; std::_Exit(0); }

struct Op { std::string op; U k, v; };
static std::vector<std::vector<Op>> programs(In &in) {
  std::vector<std::vector<Op>> p(in.i());
  for (auto &q : p) { q.resize(in.i()); for (auto &o : q) { o.op = in.word(); o.k = in.u(); o.v = in.u(); } }
  return p;
}
static int log_begin(int th, const Op &o) { evs.push_back(Ev{th, o.op, sched::now(), -1, o.k, o.v, 0, 0, -1}); return evs.size() - 1; }

static std::unique_ptr<Table> tab, other;

static void table_op(Table &t, int th, const Op &o, uint64_t **mine) {
  int e = log_begin(th, o);
  U *d = t.data();
  U out = 0, *loc = nullptr;
  int ok = 1;
  if (o.op == "ins" || o.op == "insn") {
    bool w = o.op == "ins";
    ok = t.insert(o.k, o.v, &out, &loc, w, true);
    if (ok || !w) out = 0;
  } else if (o.op == "find") {
    ok = t.find(o.k, &out, &loc, true);
    if (!ok) out = 0;
  } else if (o.op == "set" || o.op == "setk") {     // overwrite at the location this thread's last operation stored or found
    if (!*mine) ok = 0;
    else if (o.op == "set") t.set(*mine, o.k, o.v);
    else out = t.set2(*mine, o.v);
    loc = *mine;
  } else if (o.op == "del") {
    t.del(o.k);
  }
  *mine = ok && o.op != "set" && o.op != "setk" ? loc : nullptr;
  evs[e].ok = ok; evs[e].out = out;
  evs[e].loc = loc ? (loc - d) / t.stride() : -1;
  evs[e].t1 = sched::now();
}

int main() {
  std::string line;
  sched::on_deadlock = dead;
  while (std::getline(std::cin, line)) {
    In in(line);
    std::string op = in.word();
    evs.clear();
    try {
      if (op == "new") {
        int kind = in.i(); int64_t nb = in.i(); int kb = in.i(), vb = in.i();
        tab.reset(make_table(kind, nb, kb, vb));
        if (!tab) throw std::logic_error("no such table");
        std::cout << "{\"nb\":" << tab->buckets() << ",\"kb\":" << tab->key_bits() << ",\"vb\":" << tab->value_bits() << "}" << std::endl;
      } else if (op == "do") {                       // one thread
        static thread_local uint64_t *mine;
        Op o{in.word(), in.u(), in.u()};
        if (o.op == "set" || o.op == "setk") { U x; if (!tab->find(o.k, &x, &mine, true)) mine = nullptr; }
        table_op(*tab, 0, o, &mine);
        std::cout << finish("ok") << std::endl;
      } else if (op == "resize" || op == "copy" || op == "copysimple") {
        int kind = in.i(); int64_t nb = in.i(); int kb = in.i(), vb = in.i(); bool keep = in.i();
        if (op == "resize") {
          tab->resize(nb, kb, vb, keep);
        } else {
          other.reset(make_table(kind, nb, kb, vb));
          other->copy_from(*tab, op == "copysimple");
          std::swap(tab, other);
        }
        std::cout << "{\"nb\":" << tab->buckets() << ",\"kb\":" << tab->key_bits() << ",\"vb\":" << tab->value_bits() << "}" << std::endl;
      } else if (op == "accessor") {                 // the same table through another kind of accessor
        int kind = in.i();
        other.reset(make_table(kind, tab->buckets(), tab->key_bits(), tab->value_bits()));
        other->copy_from(*tab, false);
        std::swap(tab, other);
        std::cout << "{}" << std::endl;
      } else if (op == "empty") {
        int ok = 1;
        int64_t used = 0, n = tab->buckets() * tab->stride();
        for (int64_t i = 0; i < n; ++i) if (~tab->data()[i]) ++used;
        try { tab->check_empty(); } catch (const std::exception &) { ok = 0; }
        std::cout << "{\"ok\":" << ok << ",\"used\":" << used << "}" << std::endl;
      } else if (op == "threads") {                  // threads <seed> <stick> <choices> <programs>
        U seed = in.i(); int stick = in.i();
        std::vector<int> ch(in.i()); for (auto &x : ch) x = in.i();
        auto ps = programs(in);
        watch_lo = tab->data(); watch_hi = watch_lo + tab->buckets() * tab->stride();
        sched::start(ch, seed, stick);
        std::vector<std::thread> th;
        for (size_t i = 0; i < ps.size(); ++i)
          th.emplace_back([&, i]() {
            uint64_t *mine = nullptr;
            for (auto &o : ps[i]) { sched::yield(); table_op(*tab, i, o, &mine); }
          });
        for (auto &t : th) t.join();
        sched::stop();
        watch_lo = watch_hi = nullptr;
        std::cout << finish("ok") << std::endl;
      } else if (op == "pool") {                     // pool <seed> <stick> <choices> <threads> <global> <programs>
        U seed = in.i(); int stick = in.i();
        std::vector<int> ch(in.i()); for (auto &x : ch) x = in.i();
        int n = in.i(); bool global = in.i();
        auto ps = programs(in);
        sched::start(ch, seed, stick);
        std::unique_ptr<k2::ThreadPool> own;
        if (!global) own.reset(new k2::ThreadPool(n));
        k2::ThreadPool *pool = global ? k2::GetThreadPool() : own.get();
        if (global && pool != k2::GetThreadPool()) throw std::logic_error("another pool");
        int size = pool->GetNumThreads();
        std::function<void(int, const Op &)> client;
        client = [&](int th, const Op &o) {
          int e = log_begin(th, o);
          if (o.op == "wait") {
            pool->WaitAllTasksFinished();
          } else {                                   // sub <task> <work>: the task yields <work & 15> times and submits task + 0x100 when bit 4 is set
            pool->SubmitTask([&, o]() {
              int b = log_begin(sched::self(), Op{"run", o.k, 0});
              for (U i = 0; i < (o.v & 15); ++i) sched::yield();
              if (o.v & 16) client(sched::self(), Op{"sub", o.k + 0x100, o.v & 15});
              evs[b].t1 = sched::now();
            });
          }
          evs[e].t1 = sched::now();
        };
        {
          std::vector<std::thread> th;
          for (size_t i = 0; i < ps.size(); ++i) th.emplace_back([&, i]() { for (auto &o : ps[i]) { sched::yield(); client(i, o); } });
          for (auto &t : th) t.join();
          int e = log_begin(-1, Op{"gone", 0, static_cast<U>(size)});
          if (own) own.reset(); else pool->WaitAllTasksFinished();
          evs[e].t1 = sched::now();
        }
        sched::stop();
        std::cout << finish("ok") << std::endl;
        if (global) { std::cout.flush(); std::_Exit(0); }
      } else if (op == "sem") {                      // sem <seed> <stick> <choices> <kind> <count> <programs>
        U seed = in.i(); int stick = in.i();
        std::vector<int> ch(in.i()); for (auto &x : ch) x = in.i();
        int kind = in.i(), count = in.i();
        auto ps = programs(in);
        sched::start(ch, seed, stick);
        {
          k2std::counting_semaphore s(count);
          k2::Semaphore ks;
          k2::ContextPtr c = k2::GetCpuContext();
          std::vector<std::thread> th;
          for (size_t i = 0; i < ps.size(); ++i)
            th.emplace_back([&, i]() {
              for (auto &o : ps[i]) {
                sched::yield();
                int e = log_begin(i, o);
                if (o.op == "rel") { if (kind) ks.Signal(c); else s.release(); }
                else { if (kind) ks.Wait(c); else s.acquire(); }
                evs[e].t1 = sched::now();
              }
            });
          for (auto &t : th) t.join();
        }
        sched::stop();
        std::cout << finish("ok") << std::endl;
      } else if (op == "bits") {
        std::ostringstream o;
        o << "{\"bits\":[";
        int64_t n = in.i();
        for (int64_t i = 0; i < n; ++i) o << (i ? "," : "") << bits_for(in.i());
        std::cout << o.str() << "]}" << std::endl;
      } else {
        throw std::logic_error("unknown command");
      }
    } catch (const std::exception &e) {
      sched::stop();
      std::string w = e.what(), q;
      for (char ch : w) if (ch >= 32 && ch != '"' && ch != '\\' && ch < 127) q += ch;
      std::cout << "{\"err\":\"" << q.substr(0, 160) << "\"}" << std::endl;
    }
  }
  return 0;
}
