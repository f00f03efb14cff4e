// Choice tape: every random decision of a case is drawn from here, so that a case can be recorded, replayed and shrunk.
#pragma once
#include <algorithm>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <vector>

// Words and numbers the sources mention (tools/words.py), as material for the generators.
struct Mined {
  std::vector<std::string> words;
  std::vector<uint64_t> nums;
};
inline Mined& mined() {
  static Mined m;
  return m;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull));
  r.next();
  return r.next();
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

class Tape {
 public:
  explicit Tape(uint64_t seed) : rng_(seed), replay_(false) {}
  explicit Tape(std::vector<uint32_t> in) : rng_(0), replay_(true), in_(std::move(in)) {}
  // A value in [0, n); 0 is the simplest choice.
  uint32_t below(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v >= n) v = n - 1;
    } else {
      v = (uint32_t)(rng_.next() % n);
    }
    ++pos_;
    rec_.push_back(v);
    if (mirror_ && rec_.size() <= mirrorCap_) {
      mirror_[rec_.size()] = v;
      mirror_[0] = (uint32_t)rec_.size();
    }
    return v;
  }
  uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
  // True with a chance of num/den; false is the simple choice.
  bool chance(uint32_t num, uint32_t den) { return below(den) >= den - num; }
  uint64_t bits64() {
    uint64_t hi = below(0xFFFFFFFFu), lo = below(0xFFFFFFFFu);
    return (hi << 32) ^ lo;
  }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below((uint32_t)v.size())]; }
  // Index by weight.
  size_t weighted(std::initializer_list<uint32_t> w) {
    uint32_t sum = 0;
    for (auto x : w) sum += x;
    uint32_t v = below(sum);
    size_t i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  // Heavy-tailed size: mostly small, sometimes large.
  uint32_t size(uint32_t lo, uint32_t typical, uint32_t max) {
    switch (weighted({80, 15, 3, 1, 1})) {
      case 0: return range(lo, typical);
      case 1: return range(lo, std::min(max, typical * 3));
      case 2: return range(lo, std::min(max, typical * 12));
      case 3: return range(lo, max);
      default: {
        uint64_t n = nearMined();
        return n >= lo && n <= max ? (uint32_t)n : range(lo, max);
      }
    }
  }
  // A number of the sources, or one next to it.
  uint64_t nearMined() {
    if (mined().nums.empty()) return below(100);
    return pick(mined().nums) - 1 + range(0, 2);
  }
  const std::vector<uint32_t>& record() const { return rec_; }
  // Writes the record through to shared memory (count, values), so that it survives a crash.
  void mirror(uint32_t* m, size_t cap) {
    mirror_ = m;
    mirrorCap_ = cap;
    m[0] = 0;
  }

 private:
  Rng rng_;
  bool replay_;
  std::vector<uint32_t> in_;
  size_t pos_ = 0;
  std::vector<uint32_t> rec_;
  uint32_t* mirror_ = nullptr;
  size_t mirrorCap_ = 0;
};
