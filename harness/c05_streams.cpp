// C05: fragment streams against the bytes they stand for.
#include "vf.h"
#include "streams.h"
#include <pthread.h>
#include "common/in_memory_stream.h"
#include "lightstep/buffer_chain.h"
using namespace lightstep;
using vf::Rng;

// the byte model of one stream is its remaining text
struct M { FragmentInputStream* s; std::string* rest; };

static bool consume(std::vector<M>& v, int n) {
  auto& a = v;
  switch (v.size()) {
    case 1: return Consume({a[0].s}, n);
    case 2: return Consume({a[0].s, a[1].s}, n);
    case 3: return Consume({a[0].s, a[1].s, a[2].s}, n);
    default: return Consume({a[0].s, a[1].s, a[2].s, a[3].s}, n);
  }
}
static void check(const M& m, const char* when) {
  int n = 0;
  std::string t = vf::text(*m.s, &n);
  VF_CHECK(t == *m.rest, "bytes", "after %s: stream holds %zu bytes, expected %zu (%s)", when, t.size(), m.rest->size(), t.size() == m.rest->size() ? "contents differ" : "sizes differ");
  VF_CHECK(m.s->num_fragments() == n, "fragment-count", "after %s: num_fragments %d, yields %d fragments (%zu bytes)", when, m.s->num_fragments(), n, t.size());
  VF_CHECK(m.s->empty() == (m.s->num_fragments() == 0), "empty", "empty() disagrees with num_fragments()");
  VF_CHECK(!m.s->empty() || m.rest->empty(), "empty", "empty() with %zu bytes left", m.rest->size());
}

static void history(Rng& r, int64_t) {
  vf::Arena arena;
  std::vector<std::unique_ptr<FragmentInputStream>> own;
  std::vector<std::unique_ptr<std::string>> rest;
  std::vector<M> ms;
  size_t k = 1 + r.below(4);
  uint64_t h = k;
  std::string shape;
  for (size_t i = 0; i < k; ++i) {
    rest.emplace_back(new std::string);
    if (r.chance(1, 2)) {
      std::unique_ptr<ChainedStream> head{new ChainedStream};
      *rest.back() = r.bytes(vf::chain_size(r));
      vf::fill(r, *head, *rest.back());
      shape += vf::fmt("chain(%zu", rest.back()->size());
      size_t segs = r.below(5);
      for (size_t j = 0; j < segs; ++j) {
        std::unique_ptr<ChainedStream> c{new ChainedStream};
        std::string b = r.bytes(vf::chain_size(r));
        vf::fill(r, *c, b);
        if (r.chance(1, 4)) {  // append something that is itself a chain
          std::unique_ptr<ChainedStream> c2{new ChainedStream};
          std::string b2 = r.bytes(vf::chain_size(r));
          vf::fill(r, *c2, b2);
          c->Append(std::move(c2));
          b += b2;
        }
        shape += vf::fmt("+%zu", b.size());
        *rest.back() += b;
        head->Append(std::move(c));
      }
      shape += ") ";
      own.push_back(std::move(head));
    } else {
      std::unique_ptr<FragmentArrayInputStream> f{new FragmentArrayInputStream};
      if (r.chance(1, 2)) f->Reserve(r.below(10));
      size_t n = r.below(8);
      if (n == 2 && r.chance(1, 2)) {
        std::string a = r.bytes(1 + r.below(9)), b = r.bytes(r.below(9));
        *f = {arena.add(a), arena.add(b)};
        *rest.back() = a + b;
      } else {
        for (size_t j = 0; j < n; ++j) {
          std::string b = r.bytes(r.chance(1, 4) ? 0 : r.skewed(300));
          f->Add(arena.add(b));
          *rest.back() += b;
        }
      }
      shape += vf::fmt("array(%zu,%zu) ", n, rest.back()->size());
      own.push_back(std::move(f));
    }
    ms.push_back({own.back().get(), rest.back().get()});
  }
  for (auto& m : ms) check(m, "construction");
  int ops = static_cast<int>(3 + r.below(15));
  for (int o = 0; o < ops; ++o) {
    size_t total = 0;
    for (auto& m : ms) total += m.rest->size();
    switch (r.below(8)) {
      case 0: case 1: case 2: case 3: {
        size_t n;
        if (r.chance(1, 3)) {  // exactly to a fragment's end
          std::vector<size_t> cuts{0};
          for (auto& m : ms) m.s->ForEachFragment([&](void*, int s) { cuts.push_back(cuts.back() + static_cast<size_t>(s)); return true; });
          n = cuts[r.below(cuts.size())];
        } else {
          n = r.chance(1, 12) ? total : r.skewed(total);
        }
        bool all = consume(ms, static_cast<int>(n));
        VF_CHECK(!all || n == total, "consume-result", "consuming %zu of %zu bytes says all was consumed", n, total);
        VF_CHECK(all || n < total || total == 0, "consume-result", "consuming all %zu bytes says some are left", total);
        size_t left = n;
        for (auto& m : ms) { size_t c = std::min(left, m.rest->size()); m.rest->erase(0, c); left -= c; }
        for (auto& m : ms) check(m, "consumption");
        h = vf::mix(h ^ n);
        break;
      }
      case 4: {  // direct seek to a byte that exists
        M& m = ms[r.below(ms.size())];
        if (m.rest->empty()) break;
        std::vector<int> sizes;
        m.s->ForEachFragment([&](void*, int s) { sizes.push_back(s); return true; });
        size_t at = r.below(m.rest->size()), left = at;
        int fi = 0;
        while (fi < static_cast<int>(sizes.size()) && left >= static_cast<size_t>(sizes[fi])) left -= static_cast<size_t>(sizes[fi++]);
        if (fi >= static_cast<int>(sizes.size())) break;
        m.s->Seek(fi, static_cast<int>(left));
        m.rest->erase(0, at);
        check(m, "seek");
        h = vf::mix(h ^ at ^ 0x5eec);
        break;
      }
      case 5: {  // interrupted iteration
        M& m = ms[r.below(ms.size())];
        int n = m.s->num_fragments();
        int stop = static_cast<int>(r.below(static_cast<uint64_t>(n) + 2)), seen = 0;
        bool all = m.s->ForEachFragment([&](void*, int) { return ++seen <= stop; });
        VF_CHECK(all == (stop >= n) && seen == std::min(stop + 1, n), "early-stop", "stopping after %d of %d fragments: visited %d, returned %d", stop, n, seen, all);
        check(m, "interrupted iteration");
        break;
      }
      case 6: {
        size_t i = r.below(ms.size());
        M& m = ms[i];
        if (r.chance(1, 3)) {
          m.s->Clear();
          m.rest->clear();
          VF_CHECK(m.s->num_fragments() == 0 && m.s->empty(), "clear", "a cleared stream has %d fragments", m.s->num_fragments());
          check(m, "clear");
        } else if (auto f = dynamic_cast<FragmentArrayInputStream*>(m.s)) {
          std::string b = r.bytes(r.below(40));
          if (r.chance(1, 3)) { *f = {arena.add(b)}; *m.rest = b; check(m, "assignment"); }
          else { f->Add(arena.add(b)); *m.rest += b; check(m, "add"); }
        } else if (auto c = dynamic_cast<ChainedStream*>(m.s)) {
          std::unique_ptr<ChainedStream> x{new ChainedStream};
          std::string b = r.bytes(vf::chain_size(r));
          vf::fill(r, *x, b);
          c->Append(std::move(x));
          *m.rest += b;
          check(m, "append");
        }
        break;
      }
      default: for (auto& m : ms) check(m, "nothing");
    }
  }
  // drain in random pieces
  int guard = 0;
  while (true) {
    size_t total = 0;
    for (auto& m : ms) total += m.rest->size();
    size_t n = r.chance(1, 3) ? total : std::min(total, 1 + r.skewed(700));
    bool all = consume(ms, static_cast<int>(n));
    size_t left = n;
    for (auto& m : ms) { size_t c = std::min(left, m.rest->size()); m.rest->erase(0, c); left -= c; }
    for (auto& m : ms) check(m, "draining");
    if (all || n == total || ++guard > 2000 || !vf::st().violations.empty()) break;
  }
  vf::eval();
  vf::distinct(vf::hash(shape, h));
  vf::sample(shape);
}

struct FakeChain : BufferChain {
  std::vector<std::pair<char*, size_t>> f;
  size_t num_fragments() const noexcept override { return f.size(); }
  size_t num_bytes() const noexcept override { size_t n = 0; for (auto& x : f) n += x.second; return n; }
  bool ForEachFragment(FragmentCallback cb, void* ctx) const override {
    for (auto& x : f) if (!cb(ctx, x.first, x.second)) return false;
    return true;
  }
};
static void copyout(Rng& r, int64_t) {
  vf::Arena a;
  FakeChain c;
  std::string want;
  for (size_t n = r.below(10); n--;) {
    std::string s = r.bytes(r.chance(1, 3) ? 0 : r.skewed(500));
    auto x = a.add(s);
    c.f.push_back({static_cast<char*>(x.first), s.size()});
    want += s;
  }
  size_t extra = r.below(8);
  std::unique_ptr<char[]> out{new char[want.size() + extra + 1]};
  memset(out.get(), 0x5a, want.size() + extra + 1);
  c.CopyOut(out.get(), want.size() + extra);
  VF_CHECK(want == std::string(out.get(), want.size()), "copy-out", "copied bytes differ (%zu)", want.size());
  for (size_t i = 0; i < extra + 1; ++i) VF_CHECK(out[want.size() + i] == 0x5a, "copy-out-overrun", "byte past the end was written");
  // an input stream over memory
  std::unique_ptr<char[]> ex{new char[want.size() ? want.size() : 1]};
  memcpy(ex.get(), want.data(), want.size());
  in_memory_stream is{ex.get(), want.size()};
  std::string got;
  if (r.chance(1, 2)) { got.assign(std::istreambuf_iterator<char>(is), {}); }
  else {
    char b[64];
    while (is) { is.read(b, static_cast<std::streamsize>(1 + r.below(60))); got.append(b, static_cast<size_t>(is.gcount())); }
    VF_CHECK(is.eof(), "in-memory", "no end of file");
  }
  VF_CHECK(got == want, "in-memory", "memory stream yields %zu of %zu bytes", got.size(), want.size());
  std::string cs = r.alnum(r.below(30));
  auto f = MakeFragment(cs.c_str());
  VF_CHECK(std::string(static_cast<char*>(f.first), static_cast<size_t>(f.second)) == cs, "make-fragment", "wrong fragment");
  vf::eval();
  vf::distinct(vf::hash(want));
}

// huge streams on a small stack
static void* deep(void*) {
  {
    ChainedStream c;
    const int blocks = 60000;
    for (int i = 0; i < blocks; ++i) {
      void* d; int s;
      c.Next(&d, &s);
      memset(d, i & 255, 16);
    }
    c.CloseOutput();
    VF_CHECK(c.num_fragments() == blocks, "deep-count", "%d fragments", c.num_fragments());
    Consume({static_cast<FragmentInputStream*>(&c)}, 256 * 1000 + 3);
    VF_CHECK(c.num_fragments() == blocks - 1000, "deep-count", "%d fragments", c.num_fragments());
  }
  vf::eval();
  {
    std::unique_ptr<ChainedStream> head{new ChainedStream};
    head->CloseOutput();
    const int n = 40000;
    for (int i = 0; i < n; ++i) {
      std::unique_ptr<ChainedStream> c{new ChainedStream};
      { google::protobuf::io::CodedOutputStream o{c.get()}; o.WriteVarint32(static_cast<uint32_t>(i)); }
      c->CloseOutput();
      head->Append(std::move(c));
    }
    VF_CHECK(head->num_fragments() == n, "deep-count", "%d fragments", head->num_fragments());
    head.reset();
  }
  vf::eval();
  return nullptr;
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  vf::cases("history", vf::n(8000, 300000), history);
  vf::cases("copyout", vf::n(1500, 30000), copyout);
  vf::cases("deep", 1, [](Rng&, int64_t) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, 512 * 1024);
    pthread_t t;
    if (pthread_create(&t, &a, deep, nullptr)) exit(77);
    pthread_join(t, nullptr);
  });
  return vf::finish();
}
