// A length field of a serialized state replaced by any value.
#pragma once
#include <cstring>
#include <exception>
#include <memory>
#include <string>
#include <vector>
#include "vf.h"
// Fields that hold a small number (lengths, rows, columns): eight bytes that
// read as an integer between 1 and 250.
inline std::vector<size_t> length_fields(const std::string& s) {
  std::vector<size_t> r;
  for (size_t i = 0; i + 8 <= s.size(); ++i) {
    int64_t v;
    std::memcpy(&v, s.data() + i, 8);
    if (v >= 1 && v <= 250) {
      r.push_back(i);
      i += 7;
    }
  }
  return r;
}
template <typename F>
void corrupt(const std::string& s, int range, F use) {
  auto fields = length_fields(s);
  vf_check(!fields.empty(), "the state has length fields");
  size_t at = fields[vf_choose("field", static_cast<int>(fields.size()))];
  int64_t old, v = 0;
  std::memcpy(&old, s.data() + at, 8);
  switch (range) {
    case 0: v = vf_choose("length", 64); break;
    case 1: v = 64 + vf_choose("length", 237); break;
    default:
      v = vf_bits("length");
      vf_assume(static_cast<uint64_t>(v) > 300);
  }
  vf_assume(v != old);
  // the bytes are copied so that a read past them is seen
  std::unique_ptr<char[]> buf(new char[s.size()]);
  std::memcpy(buf.get(), s.data(), s.size());
  std::memcpy(buf.get() + at, &v, 8);
  bool accepted = true;
  try {
    use(buf.get(), s.size());
  } catch (const std::exception&) {
    accepted = false;
  }
  vf_reach(accepted ? "accepted" : "refused");
}
