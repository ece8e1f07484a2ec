// Reads one command per line on stdin, runs it with k2's C++ ragged operations and prints one JSON line per command.
// Only calls the public headers of k2/csrc; decides nothing.
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "k2/csrc/array_ops.h"
#include "k2/csrc/ragged_ops.h"

using namespace k2;
using R = Ragged<int32_t>;
using Arr = Array1<int32_t>;

static ContextPtr C() { return GetCpuContext(); }

struct In {
  std::istringstream s;
  explicit In(const std::string &l) : s(l) {}
  std::string word() { std::string w; s >> w; return w; }
  int32_t i() { int32_t x; if (!(s >> x)) throw std::logic_error("protocol"); return x; }
  std::vector<int32_t> v() { std::vector<int32_t> a(i()); for (auto &x : a) x = i(); return a; }
  Arr arr() { auto a = v(); return Arr(C(), a); }
};

template <typename A>
static std::string jarr(const A &a) {
  std::ostringstream o; o << "[";
  for (int32_t i = 0; i < a.Dim(); ++i) o << (i ? "," : "") << static_cast<long long>(a[i]);
  o << "]"; return o.str();
}
template <typename T>
static std::string jvec(const std::vector<T> &a) {
  std::ostringstream o; o << "[";
  for (size_t i = 0; i < a.size(); ++i) o << (i ? "," : "") << a[i];
  o << "]"; return o.str();
}
// everything the shape reports about itself
static std::string jrag(R &r) {
  std::ostringstream o;
  int32_t n = r.NumAxes();
  std::vector<std::string> sp, ids;
  std::vector<int32_t> sizes, maxs;
  for (int32_t a = 0; a < n; ++a) {
    sizes.push_back(r.TotSize(a));
    if (a) {
      sp.push_back(jarr(r.RowSplits(a)));
      ids.push_back(jarr(r.RowIds(a)));
      maxs.push_back(r.shape.MaxSize(a));
    }
  }
  o << "{\"d\":" << n << ",\"sizes\":" << jvec(sizes) << ",\"splits\":" << jvec(sp) << ",\"ids\":" << jvec(ids) << ",\"maxs\":" << jvec(maxs)
    << ",\"values\":" << jarr(r.values) << ",\"n\":" << r.NumElements() << ",\"d0\":" << r.Dim0() << "}";
  return o.str();
}
static R zeros(const RaggedShape &s) {
  R r(s, Arr(C(), s.NumElements(), 0));
  return r;
}

int main() {
  std::vector<R> regs;
  std::string line;
  while (std::getline(std::cin, line)) {
    In in(line);
    std::string op = in.word();
    std::vector<R> out;
    std::vector<std::string> maps;
    std::string err;
    auto R_ = [&]() -> R & { return regs.at(in.i()); };
    auto many = [&]() { std::vector<R> a; int32_t n = in.i(); for (int32_t k = 0; k < n; ++k) a.push_back(regs.at(in.i())); return a; };
    try {
      if (op == "case") {
        regs.clear();
      } else if (op == "registers") {
        std::ostringstream o; o << "{\"out\":[";
        for (size_t k = 0; k < regs.size(); ++k) o << (k ? "," : "") << jrag(regs[k]);
        std::cout << o.str() << "],\"maps\":[]}" << std::endl;
        continue;
      } else if (op == "new") {   // new mode d splits1 .. splits(d-1) values; mode 0: row splits only, 1: both, 2: row ids only (last row nonempty)
        int32_t mode = in.i(), d = in.i();
        std::vector<RaggedShapeLayer> layers;
        RaggedShape shape;
        for (int32_t a = 1; a < d; ++a) {
          Arr sp = in.arr();
          RaggedShape s;
          if (mode == 0) {
            s = RaggedShape2(&sp, nullptr, -1);
          } else {
            Arr ids(C(), sp.Back());
            RowSplitsToRowIds(sp, &ids);
            bool okids = ids.Dim() > 0 && ids.Back() == sp.Dim() - 2;
            if (mode == 2 && okids) s = RaggedShape2(nullptr, &ids, -1);
            else s = RaggedShape2(&sp, &ids, mode == 1 ? sp.Back() : -1);
          }
          shape = a == 1 ? s : ComposeRaggedShapes(shape, s);
        }
        out.push_back(R(shape, in.arr()));
      } else if (op == "idx") {
        R &r = R_(); int32_t axis = in.i(); Arr ix = in.arr(), m;
        out.push_back(Index(r, axis, ix, &m)); maps.push_back(jarr(m));
      } else if (op == "idxr") {
        R &r = R_(); R &ix = R_(); bool rm = in.i();
        out.push_back(Index(r, ix, rm));
      } else if (op == "rmaxis") {
        R &r = R_(); out.push_back(RemoveAxis(r, in.i()));
      } else if (op == "rmlast") {
        R &r = R_(); out.push_back(zeros(RemoveAxis(r.shape, r.NumAxes() - 1)));
      } else if (op == "arange") {
        R &r = R_(); int32_t a = in.i(), b = in.i(), e = in.i(); out.push_back(Arange(r, a, b, e));
      } else if (op == "prefix") {
        R &r = R_(); int32_t n = in.i();
        RaggedShape s = Prefix(r.shape, n);
        out.push_back(R(s, r.values.Arange(0, s.NumElements())));
      } else if (op == "prefixes") {
        R &r = R_(); auto v = in.v();
        for (auto &s : GetPrefixes(r.shape, v)) out.push_back(R(s, r.values.Arange(0, s.NumElements())));
      } else if (op == "split") {   // every element of axis 0
        R &r = R_(); RaggedAxis0Splitter<int32_t> sp(r);
        std::vector<int32_t> offs;
        for (int32_t i = 0; i < r.Dim0(); ++i) { int32_t o; out.push_back(sp.GetElement(i, &o)); offs.push_back(o); }
        for (int32_t a = 0; a < r.NumAxes(); ++a) { std::vector<int32_t> x; for (int32_t i = 0; i <= r.Dim0(); ++i) x.push_back(sp.GetOffset(i, a)); maps.push_back(jvec(x)); }
        maps.push_back(jvec(offs));
      } else if (op == "index0") {  // one element of axis 0
        R &r = R_(); int32_t i = in.i(); out.push_back(r.Index(0, i));
      } else if (op == "addsuffix") {
        R &r = R_(); Arr s = in.arr(); out.push_back(AddSuffixToRagged(r, s));
      } else if (op == "addprefix") {
        R &r = R_(); Arr s = in.arr(); out.push_back(AddPrefixToRagged(r, s));
      } else if (op == "unsq") {
        R &r = R_(); out.push_back(Unsqueeze(r, in.i()));
      } else if (op == "unsqp") {
        auto rs = many(); std::vector<RaggedShape *> p; for (auto &r : rs) p.push_back(&r.shape);
        auto ss = UnsqueezeParallel(p.size(), p.data(), 0);
        for (size_t k = 0; k < ss.size(); ++k) out.push_back(R(ss[k], rs[k].values));
      } else if (op == "layer") {
        R &r = R_(); out.push_back(zeros(GetLayer(r.shape, in.i())));
      } else if (op == "decompose") {
        R &r = R_(); RaggedShape t, b; DecomposeRaggedShape(r.shape, in.i(), &t, &b);
        out.push_back(zeros(t)); out.push_back(R(b, r.values));
      } else if (op == "compose") {
        R &a = R_(); R &b = R_(); out.push_back(R(ComposeRaggedShapes(a.shape, b.shape), b.values));
      } else if (op == "compose3") {
        R &a = R_(); R &b = R_(); R &c = R_(); out.push_back(R(ComposeRaggedShapes3(a.shape, b.shape, c.shape), c.values));
      } else if (op == "offsets") {
        auto rs = many(); std::vector<RaggedShape *> p; for (auto &r : rs) p.push_back(&r.shape);
        Array2<int32_t> o = GetOffsets(p.size(), p.data());
        for (int32_t i = 0; i < o.Dim0(); ++i) { Arr row = o.Row(i); maps.push_back(jarr(row)); }
      } else if (op == "mktrans") {
        R &r = R_(); out.push_back(R(MakeTransposable(r.shape), r.values));
      } else if (op == "trans") {
        R &r = R_(); Arr m; out.push_back(Transpose(r, &m)); maps.push_back(jarr(m));
      } else if (op == "cat" || op == "stack") {
        int32_t axis = in.i(); auto rs = many(); Array1<uint32_t> m; std::vector<R *> p; for (auto &r : rs) p.push_back(&r);
        int32_t n = rs.size(); bool flat = axis < 2 && n % 2;   // both forms of the arguments
        if (op == "cat") out.push_back(flat ? Cat(axis, n, rs.data(), &m) : Cat(axis, n, p.data(), &m));
        else out.push_back(flat ? Stack(axis, n, rs.data(), &m) : Stack(axis, n, p.data(), &m));
        maps.push_back(jarr(m));
      } else if (op == "catshape" || op == "stackshape") {
        int32_t axis = in.i(); auto rs = many(); Array1<uint32_t> m; std::vector<RaggedShape *> p; for (auto &r : rs) p.push_back(&r.shape);
        out.push_back(zeros(op == "catshape" ? Cat(axis, p.size(), p.data(), &m) : Stack(axis, p.size(), p.data(), &m)));
        maps.push_back(jarr(m));
      } else if (op == "unstack") {
        R &r = R_(); int32_t axis = in.i(); bool pad = in.i(); std::vector<Arr> m;
        Unstack(r, axis, pad, &out, &m);
        for (auto &x : m) maps.push_back(jarr(x));
      } else if (op == "unstackshape") {
        R &r = R_(); int32_t axis = in.i(); bool pad = in.i(); std::vector<Arr> m; std::vector<RaggedShape> ss;
        Unstack(r.shape, axis, pad, &ss, &m);
        for (auto &x : ss) out.push_back(zeros(x));
        for (auto &x : m) maps.push_back(jarr(x));
      } else if (op == "merge") {
        auto rs = many(); auto v = in.v(); std::vector<uint32_t> u(v.begin(), v.end());
        Array1<uint32_t> mm(C(), u), m; std::vector<R *> p; for (auto &r : rs) p.push_back(&r);
        out.push_back(Merge(static_cast<int32_t>(p.size()), p.data(), mm, &m)); maps.push_back(jarr(m));
      } else if (op == "subset") {
        R &r = R_(); int32_t axis = in.i(); auto k = in.v(); Renumbering ren(C(), k.size());
        for (size_t i = 0; i < k.size(); ++i) ren.Keep().Data()[i] = k[i];
        Arr m; out.push_back(SubsetRagged(r, ren, axis, &m)); maps.push_back(jarr(m));
        maps.push_back(jarr(ren.New2Old())); maps.push_back(jarr(ren.Old2New()));
      } else if (op == "subset2") {
        R &r = R_(); auto k1 = in.v(), k2 = in.v(); Renumbering a(C(), k1.size()), b(C(), k2.size());
        for (size_t i = 0; i < k1.size(); ++i) a.Keep().Data()[i] = k1[i];
        for (size_t i = 0; i < k2.size(); ++i) b.Keep().Data()[i] = k2[i];
        RaggedShape s = SubsetRaggedShape(r.shape, a, b);
        out.push_back(R(s, r.values[b.New2Old()]));
      } else if (op == "rmempty") {
        R &r = R_(); int32_t axis = in.i(); Renumbering ren;
        RaggedShape s = RemoveEmptyLists(r.shape, axis, &ren);
        out.push_back(R(s, r.values)); maps.push_back(jarr(ren.New2Old()));
      } else if (op == "rmempty0") {
        R &r = R_(); Renumbering ren;
        RaggedShape s = RemoveEmptyListsAxis0(r.shape, &ren);
        out.push_back(R(s, r.values)); maps.push_back(jarr(ren.New2Old()));
      } else if (op == "rmsome" || op == "renum0") {
        R &r = R_(); int32_t axis = in.i(); auto k = in.v(); Renumbering ren(C(), k.size());
        for (size_t i = 0; i < k.size(); ++i) ren.Keep().Data()[i] = k[i];
        RaggedShape s = op == "rmsome" ? RemoveSomeEmptyLists(r.shape, axis, ren) : RenumberAxis0Simple(r.shape, ren);
        out.push_back(R(s, r.values));
      } else if (op == "chsize" || op == "chsizep") {
        R &r = R_(); int32_t d = in.i();
        out.push_back(zeros(op == "chsize" ? ChangeSublistSize(r.shape, d) : ChangeSublistSizePinned(r.shape, d)));
      } else if (op == "cover") {
        auto rs = many(); std::vector<RaggedShape *> p; for (auto &r : rs) p.push_back(&r.shape);
        RaggedShape s = CoveringShape(p.size(), p.data());
        out.push_back(zeros(s));
        for (auto &r : rs) maps.push_back(jarr(CoveringShapeForwardMap(r.shape, s)));
      } else if (op == "decr") {
        R &r = R_(); Arr m = GetDecreasingSizeOrder(r.shape); out.push_back(Index(r, 0, m)); maps.push_back(jarr(m));
      } else if (op == "leq") {
        R &r = R_(); out.push_back(RemoveValuesLeq(r, in.i()));
      } else if (op == "eq") {
        R &r = R_(); out.push_back(RemoveValuesEq(r, in.i()));
      } else if (op == "equal") {
        R &a = R_(); R &b = R_(); maps.push_back(Equal(a, b) ? "[1]" : "[0]"); maps.push_back(Equal(a.shape, b.shape) ? "[1]" : "[0]");
      } else if (op == "regular") {
        int32_t a = in.i(), b = in.i(); ContextPtr c = C(); out.push_back(zeros(RegularRaggedShape(c, a, b)));
      } else if (op == "trivial") {
        ContextPtr c = C(); out.push_back(zeros(TrivialShape(c, in.i())));
      } else if (op == "empty") {
        ContextPtr c = C(); out.push_back(zeros(EmptyRaggedShape(c, in.i())));
      } else if (op == "str") {   // text form read back
        R &r = R_(); std::ostringstream o; o << r; out.push_back(R(o.str()));
      } else if (op == "strshape") {
        R &r = R_(); std::ostringstream o; o << r.shape; out.push_back(zeros(RaggedShape(o.str())));
      } else if (op == "elem") {   // r[{i,j,..}] for every element
        R &r = R_(); std::vector<int32_t> x, y;
        for (RaggedShapeIndexIterator it = r.shape.Iterator(); !it.Done(); it.Next()) { x.push_back(r[it.Value()]); y.push_back(r.shape[it.Value()]); }
        maps.push_back(jvec(x)); maps.push_back(jvec(y));
      } else if (op == "pad") {    // pad mode value left
        R &r = R_(); std::string mode = in.i() ? "replicate" : "constant"; int32_t v = in.i(); bool left = in.i();
        Array2<int32_t> a = PadRagged(r, mode, v, left);
        for (int32_t i = 0; i < a.Dim0(); ++i) { Arr row = a.Row(i); maps.push_back(jarr(row)); }
      // ---- reductions and the like
      } else if (op == "max" || op == "min" || op == "sum" || op == "and" || op == "or" || op == "argmax") {
        R &r = R_(); int32_t init = in.i(); Arr d(C(), r.TotSize(r.NumAxes() - 2));
        if (op == "max") MaxPerSublist(r, init, &d);
        if (op == "min") MinPerSublist(r, init, &d);
        if (op == "sum") SumPerSublist(r, init, &d);
        if (op == "and") AndPerSublist(r, init, &d);
        if (op == "or") OrPerSublist(r, init, &d);
        if (op == "argmax") ArgMaxPerSublist(r, init, &d);
        maps.push_back(jarr(d));
      } else if (op == "exsum") {
        R &r = R_(); bool inplace = in.i();
        if (inplace) { R c(r.shape, r.values.Clone()); SegmentedExclusiveSum(c, &c.values); maps.push_back(jarr(c.values)); }
        else { Arr d(C(), r.NumElements()); SegmentedExclusiveSum(r, &d); maps.push_back(jarr(d)); }
      } else if (op == "sort") {   // sort descending
        R &r = R_(); bool desc = in.i(); R c(r.shape, r.values.Clone()); Arr m(C(), r.NumElements());
        if (desc) SortSublists<int32_t, GreaterThan<int32_t>>(&c, &m); else SortSublists<int32_t, LessThan<int32_t>>(&c, &m);
        out.push_back(c); maps.push_back(jarr(m));
      } else if (op == "add") {
        R &r = R_(); Arr v = in.arr(); int32_t a = in.i(); out.push_back(AddPerSublist(r, v, a));
      } else if (op == "uniq") {
        R &r = R_(); R nr; Arr m; out.push_back(UniqueSequences(r, &nr, &m)); maps.push_back(jarr(m)); out.push_back(nr);
      } else if (op == "hash") {   // equal lists have equal hashes: the hashes as ranks of first occurrence
        R &r = R_(); auto rank = [&](auto h) { std::vector<int32_t> x; for (int32_t i = 0; i < h.Dim(); ++i) { int32_t j = 0; while (h[j] != h[i]) ++j; x.push_back(j); } return jvec(x); };
        maps.push_back(rank(ComputeHash<int64_t>(r))); maps.push_back(rank(ComputeHash<int32_t>(r)));
      } else if (op == "transre") {
        R &r = R_(); maps.push_back(jarr(GetTransposeReordering(r, in.i())));
      } else if (op == "counts") {
        R &r = R_(); R &s = R_(); out.push_back(GetCountsPartitioned(r, s.shape));
      } else if (op == "prune") {  // prune axis beam max_elems
        R &r = R_(); int32_t axis = in.i(), beam = in.i(), mx = in.i();
        Array1<float> f(C(), r.NumElements());
        for (int32_t i = 0; i < f.Dim(); ++i) f.Data()[i] = r.values[i];
        Ragged<float> rf(r.shape, f);
        Renumbering ren = PruneRagged(rf, axis, static_cast<float>(beam), mx);
        Arr n2o = ren.New2Old(); maps.push_back(jarr(n2o));
        out.push_back(SubsetRagged(r, ren, axis));
      } else {
        err = "unknown command";
      }
    } catch (const std::logic_error &e) {
      err = std::string("protocol ") + e.what();
    } catch (const std::exception &e) {
      err = "failed";
    }
    std::ostringstream o;
    if (!err.empty()) {
      o << "{\"err\":\"" << err << "\"}";
    } else {
      o << "{\"out\":[";
      for (size_t k = 0; k < out.size(); ++k) o << (k ? "," : "") << jrag(out[k]);
      o << "],\"maps\":" << jvec(maps) << "}";
      for (auto &r : out) regs.push_back(r);
    }
    std::cout << o.str() << std::endl;
  }
  return 0;
}
