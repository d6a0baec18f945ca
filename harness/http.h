// What a satellite sees on a connection: one chunked POST whose chunks hold pieces of a report.
#pragma once
#include "vf.h"
#include "lightstep-tracer-common/collector.pb.h"
namespace vf {
struct Request {
  std::string error;               // first violation of the protocol; a cut is not one
  bool head = false;               // the header block is complete
  bool done = false;               // the terminating chunk was seen
  std::string request_line;
  std::vector<std::pair<std::string, std::string>> headers;
  std::string body;                // decoded chunks that are complete
  std::vector<std::string> chunks;
  std::vector<size_t> ends;        // where each chunk ends in the input
  size_t used = 0;                 // bytes of the complete parts
  std::string header(const std::string& k) const {
    for (auto& h : headers) if (strcasecmp(h.first.c_str(), k.c_str()) == 0) return h.second;
    return "";
  }
};
inline Request parse_request(const std::string& in) {
  Request q;
  size_t i = in.find("\r\n\r\n");
  if (i == std::string::npos) return q;
  std::string head = in.substr(0, i + 2);
  q.used = i + 4;
  q.head = true;
  size_t b = 0;
  bool first = true;
  while (b < head.size()) {
    size_t e = head.find("\r\n", b);
    std::string line = head.substr(b, e - b);
    b = e + 2;
    if (first) { q.request_line = line; first = false; continue; }
    size_t c = line.find(':');
    if (c == std::string::npos || c == 0) { q.error = "header line " + hex(line); return q; }
    size_t v = c + 1;
    while (v < line.size() && (line[v] == ' ' || line[v] == '\t')) ++v;
    size_t z = line.size();
    while (z > v && (line[z - 1] == ' ' || line[z - 1] == '\t')) --z;
    q.headers.emplace_back(line.substr(0, c), line.substr(v, z - v));
  }
  if (q.request_line != "POST /api/v2/reports HTTP/1.1") { q.error = "request line " + hex(q.request_line); return q; }
  if (strcasecmp(q.header("Transfer-Encoding").c_str(), "chunked") != 0) { q.error = "not chunked"; return q; }
  i = q.used;
  for (;;) {
    size_t e = i;
    uint64_t n = 0;
    int digits = 0;
    while (e < in.size() && isxdigit(static_cast<unsigned char>(in[e]))) {
      char c = in[e++];
      n = n * 16 + static_cast<uint64_t>(c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
      if (++digits > 16) { q.error = "chunk size too long"; return q; }
    }
    if (e >= in.size()) return q;
    if (!digits || in[e] != '\r') { q.error = fmt("chunk header at %zu: ", i) + hex(in.substr(i, 40)); return q; }
    if (e + 1 >= in.size()) return q;
    if (in[e + 1] != '\n') { q.error = "chunk header without newline"; return q; }
    e += 2;
    if (n == 0) {
      std::string t = in.substr(e, 2);
      if (t.size() < 2) { if (t != std::string("\r\n").substr(0, t.size())) q.error = "trailer"; return q; }
      if (t != "\r\n") { q.error = "trailer " + hex(t); return q; }
      q.done = true;
      q.used = e + 2;
      if (q.used != in.size()) q.error = fmt("%zu bytes after the end: ", in.size() - q.used) + hex(in.substr(q.used, 60));
      return q;
    }
    if (in.size() < e + n) return q;
    std::string tail = in.substr(e + n, 2);
    if (tail != std::string("\r\n").substr(0, tail.size())) { q.error = fmt("chunk of %llu bytes not closed: ", (unsigned long long)n) + hex(tail); return q; }
    if (tail.size() < 2) return q;
    q.chunks.push_back(in.substr(e, n));
    q.body += q.chunks.back();
    i = e + n + 2;
    q.ends.push_back(i);
    q.used = i;
  }
}
}  // namespace vf
