// C16: the flat map against std::map.
#include "vf.h"
#include <map>
#include "common/flat_map.h"
#include "tracer/baggage_flat_map.h"
using namespace lightstep;
using vf::Rng;

static std::string key(Rng& r) {
  switch (r.below(6)) {
    case 0: return "";
    case 1: return std::string(1, static_cast<char>(r.below(256)));
    case 2: return r.alnum(1);
    case 3: return "key" + std::to_string(r.below(6));
    case 4: return std::string("a") + std::string(r.below(4), '\0');
    default: return r.bytes(r.skewed(20));
  }
}
template <class Map, class Model>
static void verify(const Map& m, const Model& model, const char* what) {
  VF_CHECK(m.empty() == model.empty(), "empty", "empty() is %d with %zu entries", m.empty(), model.size());
  VF_CHECK(static_cast<size_t>(std::distance(m.begin(), m.end())) == model.size() && m.as_vector().size() == model.size(), "count", "after %s %zu entries, expected %zu", what, m.as_vector().size(), model.size());
  auto i = model.begin();
  for (auto& e : m) {
    if (i == model.end()) break;
    VF_CHECK(e.first == i->first && e.second == i->second, "entries", "after %s %s=%s, expected %s=%s", what, vf::hex(e.first).c_str(), vf::hex(e.second).c_str(), vf::hex(i->first).c_str(), vf::hex(i->second).c_str());
    ++i;
  }
  vf::eval();
}
static void history(Rng& r, int64_t) {
  FlatMap<std::string, std::string> m;
  std::map<std::string, std::string> model;
  uint64_t h = 0;
  std::vector<std::string> used;
  for (size_t n = r.skewed(120); n > 0; --n) {
    std::string k = !used.empty() && r.chance(1, 3) ? r.pick(used) : key(r), v = r.bytes(r.skewed(30));
    if (r.chance(2, 3)) {
      used.push_back(k);
      std::string kk = k, vv = v;
      auto it = m.insert_or_assign(std::move(kk), std::move(vv));
      model[k] = v;
      VF_CHECK(it != m.end() && it->first == k && it->second == v, "iterator", "the returned iterator is not at the entry written");
      verify(m, model, "insert_or_assign");
    } else {
      auto it = m.find(k);
      auto e = model.find(k);
      VF_CHECK((it == m.end()) == (e == model.end()), "find", "find(%s) says %d", vf::hex(k).c_str(), it != m.end());
      if (it != m.end() && e != model.end()) VF_CHECK(it->first == k && it->second == e->second, "find", "find(%s) is at %s=%s", vf::hex(k).c_str(), vf::hex(it->first).c_str(), vf::hex(it->second).c_str());
      auto c = m.find(opentracing::string_view{k});
      VF_CHECK((c == m.end()) == (e == model.end()), "find", "find by view of %s says %d", vf::hex(k).c_str(), c != m.end());
    }
    h = vf::hash(k, h);
  }
  FlatMap<std::string, std::string> copy = m, moved = std::move(m);
  verify(copy, model, "copy");
  verify(moved, model, "move");
  vf::distinct(h);
}
static void baggage(Rng& r, int64_t) {
  BaggageFlatMap m;
  std::map<std::string, std::string, StringViewComparison> model;
  uint64_t h = 1;
  for (size_t n = r.skewed(60); n > 0; --n) {
    std::string k = key(r), v = r.bytes(r.skewed(20)), kk = k, vv = v;
    m.insert_or_assign(std::move(kk), std::move(vv));
    model[k] = v;
    h = vf::hash(k, h);
  }
  verify(m, model, "baggage");
  for (auto& e : model) { auto it = m.find(e.first); VF_CHECK(it != m.end() && it->second == e.second, "find", "baggage %s not found", vf::hex(e.first).c_str()); }
  vf::distinct(h);
}
// an order of one's own
static void order(Rng& r, int64_t) {
  FlatMap<int, int, std::greater<int>> m;
  std::map<int, int, std::greater<int>> model;
  for (size_t n = r.skewed(60); n > 0; --n) {
    int k = static_cast<int>(r.range(-20, 20)), v = static_cast<int>(r.below(100)), kk = k, vv = v;
    m.insert_or_assign(std::move(kk), std::move(vv));
    model[k] = v;
  }
  VF_CHECK(m.as_vector().size() == model.size(), "count", "%zu entries, expected %zu", m.as_vector().size(), model.size());
  auto i = model.begin();
  for (auto& e : m) { VF_CHECK(e.first == i->first && e.second == i->second, "order", "%d where %d belongs", e.first, i->first); ++i; }
  for (int k = -21; k <= 21; ++k) VF_CHECK((m.find(k) != m.end()) == (model.count(k) > 0), "find", "find(%d)", k);
  vf::eval();
  vf::distinct(r());
}
int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("history", vf::n(3000, 80000), history);
  vf::cases("baggage", vf::n(2000, 40000), baggage);
  vf::cases("order", vf::n(2000, 40000), order);
  return vf::finish();
}
