// Drives the C++ decoding library (k2/torch): reads one request per line, answers each with one line of JSON.
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "k2/csrc/fsa_algo.h"
#include "k2/csrc/fsa_utils.h"
#include "k2/csrc/ragged_ops.h"
#include "k2/torch/csrc/beam_search.h"
#include "k2/torch/csrc/decode.h"
#include "k2/torch/csrc/dense_fsa_vec.h"
#include "k2/torch/csrc/deserialization.h"
#include "k2/torch/csrc/fsa_algo.h"
#include "k2/torch/csrc/fsa_class.h"
#include "k2/torch/csrc/hypothesis.h"
#include "k2/torch/csrc/nbest.h"
#include "k2/torch/csrc/symbol_table.h"
#include "k2/torch/csrc/torch_api.h"
#include "k2/torch/csrc/utils.h"
#include "k2/torch/csrc/wave_reader.h"

using namespace k2;
static std::map<std::string, FsaClass> O;
static std::string hexs(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
  return r;
}
static std::string unhex(const std::string &s) {
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}
struct In {
  std::istringstream is;
  explicit In(const std::string &l) : is(l) {}
  std::string w() { std::string s; if (!(is >> s)) throw std::runtime_error("bad request"); return s; }
  int64_t i() { return std::stoll(w()); }
  float f() { return std::strtof(w().c_str(), nullptr); }
};
static std::string num(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", x);
  return b;
}
template <class T> static std::string arr(const T *p, int64_t n) {
  std::string s = "[";
  for (int64_t k = 0; k < n; ++k) { if (k) s += ","; s += num(static_cast<double>(p[k])); }
  return s + "]";
}
template <class V> static std::string vec(const V &v) { return arr(v.data(), v.size()); }
static std::string tens(torch::Tensor t) {
  std::string k = t.scalar_type() == torch::kInt ? "int" : t.scalar_type() == torch::kFloat ? "float" : t.scalar_type() == torch::kDouble ? "double"
                : t.scalar_type() == torch::kLong ? "long" : "other";
  torch::Tensor d = t.to(torch::kDouble).contiguous();
  std::string s = "[\"" + k + "\",[";
  for (int64_t i = 0; i < d.dim(); ++i) { if (i) s += ","; s += std::to_string(d.size(i)); }
  return s + "]," + arr(d.data_ptr<double>(), d.numel()) + "]";
}
static std::string vv(const std::vector<std::vector<int32_t>> &x) {
  std::string s = "[";
  for (size_t i = 0; i < x.size(); ++i) { if (i) s += ","; s += vec(x[i]); }
  return s + "]";
}
static std::string rag(const Ragged<int32_t> &r) {
  if (r.NumAxes() != 2) return "\"axes " + std::to_string(r.NumAxes()) + "\"";
  Ragged<int32_t> c = r;
  return vv(c.ToVecVec());
}
static std::string one(const Arc *a, int32_t off, int32_t n0, const int32_t *rs, int32_t s0) {
  std::string s = "{\"n\":" + std::to_string(n0) + ",\"c\":[";
  for (int32_t i = 0; i < n0; ++i) { if (i) s += ","; s += std::to_string(rs[s0 + i + 1] - rs[s0 + i]); }
  s += "],\"a\":[";
  int32_t b = n0 ? rs[s0] : 0, e = n0 ? rs[s0 + n0] : 0;
  for (int32_t k = b; k < e; ++k) {
    if (k > b) s += ",";
    s += "[" + std::to_string(a[k].src_state) + "," + std::to_string(a[k].dest_state) + "," + std::to_string(a[k].label) + "," + num(a[k].score) + "]";
  }
  return s + "]}";
}
static std::string show(FsaClass &x) {
  Fsa f = x.fsa;
  std::string s = "{\"axes\":" + std::to_string(f.NumAxes()) + ",\"f\":[";
  if (f.NumAxes() == 2) {
    s += one(f.values.Data(), 0, f.Dim0(), f.RowSplits(1).Data(), 0);
  } else {
    const int32_t *r1 = f.RowSplits(1).Data(), *r2 = f.RowSplits(2).Data();
    for (int32_t i = 0; i < f.Dim0(); ++i) { if (i) s += ","; s += one(f.values.Data(), 0, r1[i + 1] - r1[i], r2, r1[i]); }
  }
  s += "],\"props\":" + std::to_string(x.Properties()) + ",\"t\":{";
  bool first = true;
  std::map<std::string, torch::Tensor> ts(x.tensor_attrs.begin(), x.tensor_attrs.end());
  for (auto &p : ts) { if (!first) s += ","; first = false; s += "\"" + p.first + "\":" + tens(p.second); }
  s += "},\"r\":{";
  first = true;
  for (auto &p : x.ragged_tensor_attrs) { if (!first) s += ","; first = false; s += "\"" + p.first + "\":" + rag(p.second); }
  return s + "}}";
}
static torch::Tensor floats(In &q, std::vector<int64_t> dims) {
  torch::Tensor t = torch::empty(dims, torch::kFloat);
  float *p = t.data_ptr<float>();
  for (int64_t k = 0; k < t.numel(); ++k) p[k] = q.f();
  return t;
}
static torch::Tensor ints(In &q, int64_t n, torch::ScalarType ty = torch::kInt) {
  torch::Tensor t = torch::empty({n}, torch::kLong);
  for (int64_t k = 0; k < n; ++k) t.data_ptr<int64_t>()[k] = q.i();
  return t.to(ty);
}
static void readfsa(In &q) {       // NAME axes nf {n na (s d l w)*}
  std::string name = q.w();
  int axes = q.i(), nf = q.i();
  std::vector<int32_t> r1(1, 0), r2(1, 0);
  std::vector<Arc> arcs;
  for (int f = 0; f < nf; ++f) {
    int n = q.i(), na = q.i();
    std::vector<int32_t> cnt(n, 0);
    for (int k = 0; k < na; ++k) {
      int s = q.i(), d = q.i(), l = q.i();
      float w = q.f();
      arcs.push_back(Arc(s, d, l, w));
      cnt[s]++;
    }
    r1.push_back(r1.back() + n);
    for (int s = 0; s < n; ++s) r2.push_back(r2.back() + cnt[s]);
  }
  ContextPtr c = GetCpuContext();
  Array1<int32_t> a1(c, r1), a2(c, r2);
  Array1<Arc> v(c, arcs);
  Fsa f = axes == 2 ? Ragged<Arc>(RaggedShape2(&a2, nullptr, arcs.size()), v)
                    : Ragged<Arc>(RaggedShape3(&a1, nullptr, -1, &a2, nullptr, arcs.size()), v);
  O[name] = FsaClass(f);
}
static FsaClassPtr ptr(const std::string &n) { return std::make_shared<FsaClass>(O.at(n)); }
static DenseFsaVec readdense(In &q) {      // nb T C values nseg segs trunc
  int nb = q.i(), T = q.i(), C = q.i();
  torch::Tensor lp = floats(q, {nb, T, C});
  int ns = q.i();
  torch::Tensor seg = ints(q, ns * 3).reshape({ns, 3});
  return CreateDenseFsaVec(lp, seg, q.i());
}
static std::string answer(In &q) {
  std::string op = q.w();
  if (op == "fsa") { readfsa(q); return "1"; }
  if (op == "tattr") {
    std::string n = q.w(), a = q.w(), ty = q.w();
    int64_t m = q.i();
    torch::Tensor t = torch::empty({m}, torch::kDouble);
    for (int64_t k = 0; k < m; ++k) t.data_ptr<double>()[k] = std::strtod(q.w().c_str(), nullptr);
    O.at(n).SetTensorAttr(a, t.to(ty == "int" ? torch::kInt : ty == "float" ? torch::kFloat : ty == "double" ? torch::kDouble : torch::kLong));
    return "1";
  }
  if (op == "rattr") {
    std::string n = q.w(), a = q.w();
    int m = q.i();
    std::vector<std::vector<int32_t>> v(m);
    for (auto &x : v) { int k = q.i(); for (int j = 0; j < k; ++j) x.push_back(q.i()); }
    O.at(n).SetRaggedTensorAttr(a, CreateRagged2<int32_t>(v));
    return "1";
  }
  if (op == "show") return show(O.at(q.w()));
  if (op == "alias") { std::string a = q.w(); O[a] = O.at(q.w()); return "1"; }
  if (op == "clear") { O.clear(); return "1"; }
  if (op == "ctctopo") { std::string n = q.w(); int m = q.i(); O[n] = *GetCtcTopo(m, q.i()); return show(O[n]); }
  if (op == "trivial") { std::string n = q.w(); O[n] = *GetTrivialGraph(q.i()); return show(O[n]); }
  if (op == "load") { std::string n = q.w(); O[n] = *LoadFsaClass(unhex(q.w())); return show(O[n]); }
  if (op == "lattice") {       // OUT GRAPH nb T C values lens sb ob min max subs
    std::string out = q.w();
    FsaClassPtr g = ptr(q.w());
    int nb = q.i(), T = q.i(), C = q.i();
    torch::Tensor lp = floats(q, {nb, T, C}), len = ints(q, nb);
    float sb = q.f(), ob = q.f();
    int mi = q.i(), ma = q.i(), ss = q.i();
    O[out] = *GetLattice(lp, len, g, sb, ob, mi, ma, ss);
    return show(O[out]);
  }
  if (op == "segdense") {      // OUT GRAPH dense... sb ob min max part : the internal entry point with segments
    std::string out = q.w(), g = q.w();
    DenseFsaVec d = readdense(q);
    float sb = q.f(), ob = q.f();
    int mi = q.i(), ma = q.i(), part = q.i();
    O[out] = IntersectDensePruned(O.at(g), d, sb, ob, mi, ma, part);
    return show(O[out]);
  }
  if (op == "dense") {
    DenseFsaVec d = readdense(q);
    RaggedShape s = d.shape;
    torch::Tensor t = Array2ToTorch<float>(d.scores);
    return "[" + arr(s.RowSplits(1).Data(), s.Dim0() + 1) + "," + tens(t) + "]";
  }
  if (op == "supseg") {
    int n = q.i();
    torch::Tensor a = ints(q, n), b = ints(q, n), c = ints(q, n);
    c10::impl::GenericDict d(c10::StringType::get(), c10::TensorType::get());
    d.insert("sequence_idx", a); d.insert("start_frame", b); d.insert("num_frames", c);
    return tens(GetSupervisionSegments(d, q.i()));
  }
  if (op == "shortest") { std::string out = q.w(); O[out] = *ShortestPath(ptr(q.w())); return show(O[out]); }
  if (op == "bestpath") return vv(BestPath(ptr(q.w())));
  if (op == "texts") return rag(GetTexts(O.at(q.w())));
  if (op == "whole") { std::string g = q.w(); float s = q.f(); std::string l = q.w(); WholeLatticeRescoring(O.at(g), s, &O.at(l)); return show(O.at(l)); }
  if (op == "bestpaths") {     // OUT LAT use_max n scale
    std::string out = q.w(), l = q.w();
    int um = q.i(), n = q.i();
    O[out] = GetBestPaths(O.at(l), um, n, q.f());
    return show(O[out]);
  }
  if (op == "nbest") {         // OUT LAT n scale again AM: sampled paths, optionally scored with the (unscaled) lattice
    std::string out = q.w(), l = q.w();
    int n = q.i();
    float sc = q.f();
    int again = q.i();
    Nbest b = Nbest::FromLattice(O.at(l), n, sc);
    std::string r = "{\"rs\":" + arr(b.shape.RowSplits(1).Data(), b.shape.Dim0() + 1) + ",\"s\":" + show(b.fsa);
    if (again) {
      FsaClass copy(O.at(l));
      copy.fsa = Fsa(copy.fsa.shape, copy.fsa.values.Clone());
      b.Intersect(&copy);
      r += ",\"i\":" + show(b.fsa);
      if (b.fsa.HasTensorAttr("lm_scores")) r += ",\"am\":" + tens(b.ComputeAmScores()) + ",\"lm\":" + tens(b.ComputeLmScores());
    }
    O[out] = b.fsa;
    return r + "}";
  }
  if (op == "arcsort") { std::string n = q.w(); ArcSort(&O.at(n)); return show(O[n]); }
  if (op == "connect") { std::string n = q.w(); Connect(&O.at(n)); return show(O[n]); }
  if (op == "topsort") { std::string n = q.w(); TopSort(&O.at(n)); return show(O[n]); }
  if (op == "invert") { std::string n = q.w(); Invert(&O.at(n)); return show(O[n]); }
  if (op == "linear") { std::string out = q.w(); O[out] = LinearFsaWithSelfLoops(O.at(q.w())); return show(O[out]); }
  if (op == "intersect") {     // OUT A B n map sorted
    std::string out = q.w(), a = q.w(), b = q.w();
    int n = q.i();
    std::vector<int32_t> m(n);
    for (auto &x : m) x = q.i();
    Array1<int32_t> mm(GetCpuContext(), m);
    O[out] = IntersectDevice(O.at(a), O.at(b), mm, q.i());
    return show(O[out]);
  }
  if (op == "tot") {
    std::string n = q.w();
    int lg = q.i();
    Array1<double> t = GetTotScores<double>(O.at(n), lg);
    Array1<float> u = GetTotScores<float>(O.at(n), lg);
    return "[" + arr(t.Data(), t.Dim()) + "," + arr(u.Data(), u.Dim()) + "]";
  }
  if (op == "scale") { std::string n = q.w(), a = q.w(); FsaClassPtr p = ptr(n); ScaleTensorAttribute(p, q.f(), a); O[n] = *p; return show(O[n]); }
  if (op == "getattr") { std::string n = q.w(); FsaClassPtr p = ptr(n); return tens(GetTensorAttr(p, q.w())); }
  if (op == "setattr") {
    std::string n = q.w(), a = q.w(), ty = q.w();
    int m = q.i();
    torch::Tensor t = floats(q, {m});
    FsaClassPtr p = ptr(n);
    SetTensorAttr(p, a, ty == "int" ? t.to(torch::kInt) : t);
    O[n] = *p;
    return show(O[n]);
  }
  if (op == "rnnt") {          // OUT ns graphs vocab ctx beam mc ms T table[ns][T][vocab^ctx][vocab] nf[ns] part
    std::string out = q.w();
    int ns = q.i();
    std::vector<RnntStreamPtr> ss;
    for (int k = 0; k < ns; ++k) ss.push_back(CreateRnntStream(ptr(q.w())));
    int V = q.i(), H = q.i();
    float beam = q.f();
    int mc = q.i(), ms = q.i(), T = q.i(), nc = 1;
    for (int k = 0; k < H; ++k) nc *= V;
    torch::Tensor tab = floats(q, {ns, T, nc, V});
    std::vector<int32_t> nf(ns);
    for (auto &x : nf) x = q.i();
    int part = q.i();
    RnntStreamsPtr st = CreateRnntStreams(ss, V, H, beam, mc, ms);
    std::string log = "[";
    for (int t = 0; t < T; ++t) {
      auto c = GetRnntContexts(st);
      torch::Tensor ids = RowIds(c.first, 1), ctx = c.second.to(torch::kInt).contiguous();
      int n = TotSize(c.first, 1);
      torch::Tensor lp = torch::empty({n, V});
      for (int k = 0; k < n; ++k) {
        int x = 0;
        for (int h = 0; h < H; ++h) x = x * V + ctx.data_ptr<int32_t>()[k * H + h];
        lp[k] = tab[ids.data_ptr<int32_t>()[k]][t][x];
      }
      if (t) log += ",";
      log += "[" + arr(ids.data_ptr<int32_t>(), n) + "," + arr(ctx.data_ptr<int32_t>(), n * H) + "]";
      AdvanceRnntStreams(st, lp);
    }
    TerminateAndFlushRnntStreams(st);
    O[out] = *FormatOutput(st, nf, part);
    return "{\"ctx\":" + log + "],\"o\":" + show(O[out]) + "}";
  }
  if (op == "symbols") {       // FILE n ids m symbols(hex)
    SymbolTable t(unhex(q.w()));
    std::string r = "{\"ids\":[";
    int n = q.i();
    for (int k = 0; k < n; ++k) { int id = q.i(); if (k) r += ","; r += t.contains(id) ? "\"" + hexs(t[id]) + "\"" : "null"; }
    r += "],\"syms\":[";
    n = q.i();
    for (int k = 0; k < n; ++k) { std::string s = unhex(q.w()); if (k) r += ","; r += t.contains(s) ? std::to_string(t[s]) : "null"; }
    return r + "],\"str\":\"" + hexs(t.ToString()) + "\"}";
  }
  if (op == "wave") {
    WaveReader w(unhex(q.w()));
    return "[" + num(w.SampleRate()) + "," + tens(w.Data() * 32768) + "]";
  }
  if (op == "wavers") {
    float sr = q.f();
    int n = q.i();
    std::vector<std::string> f(n);
    for (auto &x : f) x = unhex(q.w());
    auto v = ReadWave(f, sr);
    std::string r = "[";
    for (size_t k = 0; k < v.size(); ++k) { if (k) r += ","; r += tens(v[k] * 32768); }
    return r + "]";
  }
  if (op == "hyps") {          // n (len ids log_prob)* len_norm: added one after the other
    int n = q.i();
    Hypotheses h;
    for (int k = 0; k < n; ++k) {
      int m = q.i();
      std::vector<int32_t> ys(m);
      for (auto &y : ys) y = q.i();
      h.Add(Hypothesis(ys, std::strtod(q.w().c_str(), nullptr)));
    }
    int ln = q.i();
    std::string r = "[[";
    bool first = true;
    for (auto &x : h.Vec()) { if (!first) r += ","; first = false; r += "[" + vec(x.ys) + "," + num(x.log_prob) + "]"; }
    Hypothesis b = h.GetMostProbable(ln);
    return r + "]," + vec(b.ys) + "]";
  }
  if (op == "search") {        // MODEL method nb T D values lens paths
    torch::jit::Module m = torch::jit::load(unhex(q.w()));
    m.eval();
    std::string how = q.w();
    int nb = q.i(), T = q.i(), D = q.i();
    torch::Tensor e = floats(q, {nb, T, D}), len = ints(q, nb, torch::kLong);
    int np = q.i();
    torch::NoGradGuard g;
    return vv(how == "greedy" ? GreedySearch(m, e, len) : ModifiedBeamSearch(m, e, len, np));
  }
  throw std::runtime_error("unknown request " + op);
}
int main() {
  std::ios::sync_with_stdio(false);
  std::string l;
  while (std::getline(std::cin, l)) {
    if (l.empty()) continue;
    std::string r;
    try { In q(l); r = answer(q); } catch (const std::exception &e) {
      std::string w = e.what();
      r = "{\"err\":\"" + hexs(w.substr(0, 4000)) + "\"}";
    }
    std::cout << "\n@@ " << r << "\n" << std::flush;
  }
  return 0;
}
