// A small property-based testing engine.
//
// A property is a function of a Src (a source of choices).  Every random decision is a bounded
// integer drawn from the Src and recorded, so one case *is* its list of choices: replaying the list
// reproduces the case, and a failing case is minimised by shortening and lowering the list
// (internal shrinking, as Hypothesis does it).  Cases run in a forked child: a crash, a sanitizer
// report or a hang in the code under test is a failure of the case like any other.
#ifndef VERIF_HARNESS_PBT_H_
#define VERIF_HARNESS_PBT_H_

#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  explicit Failure(const std::string& what_in) : std::runtime_error(what_in) {}
};

// Thrown to give up on a case which turned out not to be of interest.
struct Discard {};

class Src {
 public:
  // Uniform in [0, bound).  Lower is simpler.
  std::uint64_t draw(std::uint64_t bound);
  // Uniform in [lo, hi].  Shrinks towards lo.
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t>(draw(static_cast<std::uint64_t>(hi - lo) + 1));
  }
  std::size_t index(std::size_t size) { return static_cast<std::size_t>(draw(size)); }
  bool boolean() { return draw(2) == 1; }
  // True with probability num / den.
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[index(v.size())];
  }
  // Index chosen with the given weights.
  std::size_t weighted(const std::vector<unsigned>& weights);
  // A size in [0, max]: usually small, sometimes anything up to max, sometimes near max.
  std::size_t size(std::size_t max);
  // Any 64-bit number, with small ones, powers of two and their neighbours frequent.
  std::uint64_t u64();
  std::int64_t i64() { return static_cast<std::int64_t>(u64()); }
  // Bytes of a mix of kinds: uniform, ASCII, few distinct values, zeros, 0xff.
  std::string bytes(std::size_t length);
  std::string blob(std::size_t max) { return bytes(size(max)); }
  std::vector<unsigned char> vec(std::size_t length) {
    std::string s(bytes(length));
    return std::vector<unsigned char>(s.begin(), s.end());
  }
  std::string text(std::size_t length, const std::string& alphabet);
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (std::size_t i(0); i + 1 < v.size(); ++i)
      std::swap(v[i], v[i + index(v.size() - i)]);
  }
  bool replaying() const { return replay_; }

  // Engine interface.
  void StartRandom(std::uint64_t seed);
  void StartReplay(std::vector<std::uint64_t> choices);
  const std::vector<std::uint64_t>& choices() const { return record_; }

 private:
  std::uint64_t Next();
  std::uint64_t state_ = 0;
  bool replay_ = false;
  std::size_t pos_ = 0;
  std::vector<std::uint64_t> input_, record_;
};

class Case {
 public:
  // Marks the case as non-trivial, by the rule stated for the property.
  void nontrivial() { nontrivial_ = true; }
  // Counts cases (or events) by kind.
  void label(const std::string& name, std::uint64_t n = 1);
  // Describes the case; used for samples and failures.
  std::ostream& note() { return note_; }
  bool is_nontrivial() const { return nontrivial_; }
  std::string text() const { return note_.str(); }

 private:
  bool nontrivial_ = false;
  std::ostringstream note_;
};

using Fn = std::function<void(Src&, Case&)>;

struct Options {
  unsigned weight = 1;         // Cases to run are shared out by weight.
  unsigned cost = 1;           // Divides the number of cases.
  bool concurrent = false;     // Outcome may depend on the schedule: replay many times.
  unsigned exhaustive = 0;     // If non-zero, run exactly this many cases; see Src::draw of "which".
};

struct Register {
  Register(const char* name, Fn fn, Options options = Options());
};

// The number of the case for exhaustive properties (0 .. exhaustive - 1), kept when shrinking.
std::string Hex(const std::string& bytes, std::size_t max = 48);
std::string Hex(const std::vector<unsigned char>& bytes, std::size_t max = 48);
// A directory removed when the process ends.
std::string ScratchDir();
// A fresh (non-existing) path in the scratch directory.
std::string FreshPath(const std::string& stem);
void FillRandom(std::uint64_t seed, void* out, std::size_t size);
[[noreturn]] void Fail(const char* file, int line, const std::string& message);

// A harness may define this; run instead of the checks if the environment variable PBT_PROBE is set
// (for checks which need the program started again, under another name, say).  The process ends by
// exit() if PBT_PROBE_EXIT is set too.
__attribute__((weak)) int ProbeMain(int argc, char** argv);

// Runs something at the end of the scope.
struct Finally {
  explicit Finally(std::function<void()> fn_in) : fn(std::move(fn_in)) {}
  ~Finally() { fn(); }
  std::function<void()> fn;
};

struct FailStream {
  FailStream(const char* file_in, int line_in) : file(file_in), line(line_in) {}
  template <typename T>
  FailStream& operator<<(const T& t) {
    out << t;
    return *this;
  }
  const char* file;
  int line;
  std::ostringstream out;
};
struct FailNow {
  [[noreturn]] void operator&(FailStream& s) { Fail(s.file, s.line, s.out.str()); }
  [[noreturn]] void operator&(FailStream&& s) { Fail(s.file, s.line, s.out.str()); }
};

struct Comparison {
  bool equal;
  std::string text;
  explicit operator bool() const { return equal; }
};

template <typename A, typename B>
Comparison Compare(const A& a, const B& b, const char* what) {
  Comparison comparison{a == b, std::string()};
  if (!comparison.equal) {
    std::ostringstream out;
    out << what << ": " << a << " vs " << b << ' ';
    comparison.text = out.str();
  }
  return comparison;
}

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)

#define REQUIRE(cond)                                                                      \
  if (cond) {                                                                              \
  } else                                                                                   \
    ::pbt::FailNow() & ::pbt::FailStream(__FILE__, __LINE__) << "expected: " #cond " "

#define REQUIRE_EQ(a, b)                                                                   \
  if (::pbt::Comparison pbt_comparison = ::pbt::Compare((a), (b), #a " == " #b)) {         \
  } else                                                                                   \
    ::pbt::FailNow() & ::pbt::FailStream(__FILE__, __LINE__) << pbt_comparison.text

#define PROPERTY(name, ...)                                                                \
  static void name(::pbt::Src&, ::pbt::Case&);                                             \
  static ::pbt::Register PBT_CAT(pbt_register_, name)(#name, name, ##__VA_ARGS__);         \
  static void name(::pbt::Src& src, ::pbt::Case& cs)

#endif  // VERIF_HARNESS_PBT_H_
