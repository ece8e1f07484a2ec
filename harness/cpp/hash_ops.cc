#include "hash_ops.h"
#include "sched.h"
#ifdef CONC
namespace k2 {
// The host version of AtomicCAS says that it assumes one thread; this overload is what a device does: atomic, with a
// scheduling point before it.
inline unsigned long long int AtomicCAS(unsigned long long int *address, unsigned long int compare, unsigned long int val);
}
#endif
#include "k2/csrc/hash.h"
#ifdef CONC
namespace k2 {
inline __attribute__((no_sanitize("coverage"))) unsigned long long int AtomicCAS(unsigned long long int *address, unsigned long int compare, unsigned long int val) {
  sched::yield();
  unsigned long long int res = *address;
  if (res == compare) *address = val;
  return res;
}
}
#endif
using namespace k2;
namespace {
template <typename H>
struct HashBase : Table {
  std::unique_ptr<H> h;
  ~HashBase() override { if (h) h->Destroy(); }
  void check_empty() override { h->CheckEmpty(); }
  void destroy() override { h->Destroy(); }
  uint64_t *data() override { return h->Data(); }
  int64_t buckets() override { return h->NumBuckets(); }
};
struct H64 : HashBase<Hash64> {
  H64(int64_t nb) { h.reset(new Hash64(GetCpuContext(), nb)); }
  bool insert(uint64_t k, uint64_t v, uint64_t *old, uint64_t **loc, bool wo, bool wl) override {
    auto a = h->GetAccessor();
    return a.Insert(k, v, wo ? old : nullptr, wl ? loc : nullptr);
  }
  bool find(uint64_t k, uint64_t *v, uint64_t **loc, bool wl) override { auto a = h->GetAccessor(); return a.Find(k, v, wl ? loc : nullptr); }
  void set(uint64_t *loc, uint64_t, uint64_t v) override { auto a = h->GetAccessor(); a.SetValue(loc, v); }
  uint64_t set2(uint64_t *loc, uint64_t v) override { auto a = h->GetAccessor(); a.SetValue(loc, v); return *loc; }
  void del(uint64_t k) override { auto a = h->GetAccessor(); a.Delete(k); }
  void resize(int64_t nb, int, int, bool copy) override { h->Resize(nb, copy); }
  void copy_from(Table &s, bool) override { h->CopyDataFromSimple(*static_cast<H64 &>(s).h); }
  int key_bits() override { return 64; }
  int value_bits() override { return 64; }
  int stride() override { return 2; }
};
template <typename A> struct H32;
struct Any : HashBase<Hash> {
  Any(int64_t nb, int kb, int vb) { h.reset(new Hash(GetCpuContext(), nb, kb, vb)); }
  int key_bits() override { return h->NumKeyBits(); }
  int value_bits() override { return h->NumValueBits(); }
  int stride() override { return 1; }
  void resize(int64_t nb, int kb, int vb, bool copy) override { h->Resize(nb, kb, vb, copy); }
};
template <typename A>
struct H32 : Any {
  using Any::Any;
  bool insert(uint64_t k, uint64_t v, uint64_t *old, uint64_t **loc, bool wo, bool wl) override {
    A a = h->template GetAccessor<A>();
    return a.Insert(k, v, wo ? old : nullptr, wl ? loc : nullptr);
  }
  bool find(uint64_t k, uint64_t *v, uint64_t **loc, bool wl) override { A a = h->template GetAccessor<A>(); return a.Find(k, v, wl ? loc : nullptr); }
  void set(uint64_t *loc, uint64_t k, uint64_t v) override { A a = h->template GetAccessor<A>(); a.SetValue(loc, k, v); }
  uint64_t set2(uint64_t *loc, uint64_t v) override { A a = h->template GetAccessor<A>(); return a.SetValue(loc, v); }
  void del(uint64_t k) override { A a = h->template GetAccessor<A>(); a.Delete(k); }
  void copy_from(Table &s, bool simple) override {
    Hash &o = *static_cast<Any &>(s).h;
    if (simple) h->CopyDataFromSimple(o); else h->template CopyDataFrom<A>(o);
  }
};
}  // namespace
// kinds: 0 generic, 1 packed, 2 the accessor whose key bits are fixed when compiling, 64 the table of whole words
Table *make_table(int kind, int64_t nb, int kb, int vb) {
  if (kind == 64) return new H64(nb);
  if (kind == 0) return new H32<Hash::GenericAccessor>(nb, kb, vb);
  if (kind == 1) return new H32<Hash::PackedAccessor>(nb, kb, vb);
  if (kind == 2) {
    switch (kb) {
#define K(n) case n: return new H32<Hash::Accessor<n>>(nb, kb, vb);
      K(7) K(8) K(16) K(28) K(31) K(32) K(33) K(40) K(48) K(63)
#undef K
    }
  }
  return nullptr;
}
int bits_for(int64_t size) { return NumBitsNeededFor(size); }
uint64_t *watch_lo = nullptr, *watch_hi = nullptr;
#ifdef CONC
extern "C" {
static __attribute__((no_sanitize("coverage"))) void touch(void *p) {
  if (sched::active && p >= static_cast<void *>(watch_lo) && p < static_cast<void *>(watch_hi)) sched::yield();
}
#define L(n, t) __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_load##n(t *p) { touch(p); } \
                __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_store##n(t *p) { touch(p); }
L(1, uint8_t) L(2, uint16_t) L(4, uint32_t) L(8, uint64_t) L(16, __uint128_t)
void __sanitizer_cov_trace_pc_guard(uint32_t *) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
}
#endif
