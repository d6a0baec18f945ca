// Random fragment streams together with the bytes they stand for.
#pragma once
#include "vf.h"
#include <memory>
#include <google/protobuf/io/coded_stream.h>
#include "common/chained_stream.h"
#include "common/fragment_array_input_stream.h"
namespace vf {
using lightstep::ChainedStream;
using lightstep::FragmentArrayInputStream;
using lightstep::FragmentInputStream;

struct Arena {  // owns the memory that fragment arrays point to; exact-size blocks so that ASan sees overruns
  std::vector<std::unique_ptr<char[]>> blocks;
  lightstep::Fragment add(const std::string& s) {
    blocks.emplace_back(new char[s.size() ? s.size() : 1]);
    memcpy(blocks.back().get(), s.data(), s.size());
    return {blocks.back().get(), static_cast<int>(s.size())};
  }
};
inline std::string text(const FragmentInputStream& s, int* fragments = nullptr) {
  std::string r;
  int n = 0;
  bool all = s.ForEachFragment([&](void* d, int size) {
    if (size < 0) { fail("negative-fragment", fmt("fragment of %d bytes", size)); return false; }
    r.append(static_cast<char*>(d), static_cast<size_t>(size));
    ++n;
    return true;
  });
  if (!all) fail("iteration-stopped", "a complete iteration says it was interrupted");
  if (fragments) *fragments = n;
  return r;
}
// writes `bytes` through the stream's output side in random pieces
inline void fill(Rng& r, ChainedStream& c, const std::string& bytes) {
  if (r.chance(1, 2)) {
    google::protobuf::io::CodedOutputStream o{&c};
    size_t i = 0;
    while (i < bytes.size()) {
      size_t k = std::min(bytes.size() - i, 1 + r.skewed(600));
      o.WriteRaw(bytes.data() + i, static_cast<int>(k));
      i += k;
      if (r.chance(1, 10)) o.Trim();
    }
  } else {
    size_t i = 0;
    while (i < bytes.size()) {
      void* d;
      int sz;
      if (!c.Next(&d, &sz) || sz <= 0) { fail("next", "Next refused"); return; }
      size_t k = std::min(bytes.size() - i, static_cast<size_t>(sz));
      if (r.chance(1, 4)) k = r.below(k + 1);
      memcpy(d, bytes.data() + i, k);
      i += k;
      if (static_cast<int>(k) < sz) c.BackUp(sz - static_cast<int>(k));
      VF_CHECK(c.ByteCount() == static_cast<int64_t>(i), "byte-count", "ByteCount %lld after %zu bytes", (long long)c.ByteCount(), i);
    }
    if (r.chance(1, 4)) {  // ask for more and give it all back
      void* d;
      int sz;
      c.Next(&d, &sz);
      c.BackUp(sz);
    }
  }
  VF_CHECK(c.ByteCount() == static_cast<int64_t>(bytes.size()), "byte-count", "ByteCount %lld, wrote %zu", (long long)c.ByteCount(), bytes.size());
  c.CloseOutput();
}
inline size_t chain_size(Rng& r) {
  static const size_t edges[] = {0, 1, 2, 255, 256, 257, 511, 512, 513, 768, 1024, 1025, 4096};
  return r.chance(1, 2) ? edges[r.below(13)] : r.skewed(3000);
}
}  // namespace vf
