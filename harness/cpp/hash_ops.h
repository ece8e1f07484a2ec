// One hash table behind a plain interface; hash_ops.cc implements it on k2/csrc/hash.h.
#pragma once
#include <cstdint>
#include <memory>
struct Table {
  virtual ~Table() {}
  virtual bool insert(uint64_t k, uint64_t v, uint64_t *old, uint64_t **loc, bool want_old, bool want_loc) = 0;
  virtual bool find(uint64_t k, uint64_t *v, uint64_t **loc, bool want_loc) = 0;
  virtual void set(uint64_t *loc, uint64_t k, uint64_t v) = 0;
  virtual uint64_t set2(uint64_t *loc, uint64_t v) = 0;   // the overload that reads the key from the location
  virtual void del(uint64_t k) = 0;
  virtual void resize(int64_t nb, int kb, int vb, bool copy) = 0;
  virtual void copy_from(Table &src, bool simple) = 0;
  virtual void check_empty() = 0;
  virtual void destroy() = 0;
  virtual uint64_t *data() = 0;
  virtual int64_t buckets() = 0;
  virtual int key_bits() = 0;
  virtual int value_bits() = 0;
  virtual int stride() = 0;
};
int bits_for(int64_t size);                            // NumBitsNeededFor
Table *make_table(int kind, int64_t nb, int kb, int vb);
// Compiled with -DCONC every access to the table is a scheduling point and AtomicCAS is atomic; without it the table is what
// it is on the host.
extern uint64_t *watch_lo, *watch_hi;
