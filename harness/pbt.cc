#include <new>
#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <typeinfo>
#include <unordered_set>

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

namespace pbt {

namespace {

const std::size_t kMaxChoices = 1 << 20;
const std::size_t kMaxText = 1 << 16;

// Shared with the child that runs the cases.
struct Shared {
  volatile std::uint64_t beat;      // changes whenever a case starts
  volatile std::uint64_t property;  // index
  volatile std::uint64_t case_no;
  volatile std::uint64_t count;  // choices recorded so far
  volatile std::uint64_t failed;
  volatile std::uint64_t running;  // in the middle of a case
  char message[kMaxText];
  char note[kMaxText];
  std::uint64_t choices[kMaxChoices];
};

Shared* g_shared(nullptr);
std::uint64_t* g_mirror(nullptr);

struct Property {
  std::string name;
  Fn fn;
  Options options;
};

std::vector<Property>& Properties() {
  static std::vector<Property> properties;
  return properties;
}

std::uint64_t Mix(std::uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

std::uint64_t Mix(std::uint64_t a, std::uint64_t b) { return Mix(Mix(a) ^ (b * 0xda942042e4dd58b5ULL)); }

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

std::map<std::string, std::uint64_t>& Labels() {
  static std::map<std::string, std::uint64_t> labels;
  return labels;
}

void CopyText(char* to, const std::string& from) {
  std::size_t n(std::min(from.size(), kMaxText - 1));
  memcpy(to, from.data(), n);
  to[n] = 0;
}

enum class Outcome { kPass, kFail, kDiscard };

// Runs one case in this process.
Outcome RunCase(const Property& property, Src& src, Case& cs, std::string& message) {
  try {
    property.fn(src, cs);
    return Outcome::kPass;
  } catch (const Discard&) {
    return Outcome::kDiscard;
  } catch (const Failure& e) {
    message = e.what();
  } catch (const std::exception& e) {
    message = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
  } catch (...) {
    message = "unexpected exception of unknown type";
  }
  return Outcome::kFail;
}

std::string g_scratch;
pid_t g_scratch_owner(0);

void RemoveTree(const std::string& path) {
  if (path.size() < 10 || path.find("/pbt-scratch-") == std::string::npos)
    return;
  pid_t pid(fork());
  if (pid == 0) {
    execl("/bin/rm", "rm", "-rf", "--", path.c_str(), static_cast<char*>(nullptr));
    _exit(127);
  }
  if (pid > 0)
    while (waitpid(pid, nullptr, 0) < 0 && errno == EINTR) {
    }
}

std::string JsonString(const std::string& in) {
  std::string out("\"");
  for (unsigned char c : in) {
    char buffer[8];
    if (c == '"' || c == '\\') {
      out += '\\';
      out += static_cast<char>(c);
    } else if (c == '\n') {
      out += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      snprintf(buffer, sizeof(buffer), "\\u%04x", c);
      out += buffer;
    } else {
      out += static_cast<char>(c);
    }
  }
  return out + "\"";
}

struct Settings {
  std::uint64_t seed = 1, cases = 1000;
  double seconds = 1e9, case_timeout = 30;
  unsigned worker = 0, workers = 1;
  std::string out, replay, only;
  bool verbose = false;
};

std::vector<std::uint64_t> SharedChoices() {
  std::size_t n(std::min<std::size_t>(static_cast<std::size_t>(g_shared->count), kMaxChoices));
  return std::vector<std::uint64_t>(g_shared->choices, g_shared->choices + n);
}

struct Attempt {
  bool failed = false, hung = false;
  std::string message, note;
  std::vector<std::uint64_t> choices;
};

// Removes whatever processes the child left behind in its process group.
void KillGroup(pid_t pid) { kill(-pid, SIGKILL); }

void InChildSetup() {
  setpgid(0, 0);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
}

std::string DescribeStatus(int status) {
  std::ostringstream out;
  if (WIFSIGNALED(status))
    out << "killed by signal " << WTERMSIG(status) << " (" << strsignal(WTERMSIG(status)) << ")";
  else
    out << "process ended unexpectedly with status " << WEXITSTATUS(status)
        << " (sanitizer report, std::terminate or exit)";
  return out.str();
}

std::string ReadTail(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream buffer;
  buffer << in.rdbuf();
  std::string text(buffer.str());
  if (text.size() > 6000)
    text = text.substr(0, 6000);
  return text;
}

// The description of a case that crashes or hangs is saved on the way out, as well as that goes.
Case* g_current(nullptr);

void SaveNote() {
  Case* current(g_current);
  g_current = nullptr;
  if (current)
    CopyText(g_shared->note, current->text());
}

void OnSignal(int number) {
  SaveNote();
  if (number != SIGUSR1) {
    signal(number, SIG_DFL);
    raise(number);
  }
}

void SaveNoteOnDeath() {
  signal(SIGUSR1, OnSignal);
  signal(SIGABRT, OnSignal);
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(SaveNote);
}

// Runs one case, given by its choices, in a fresh child.
Attempt RunIsolated(std::size_t index, const std::vector<std::uint64_t>& choices, double timeout,
                    unsigned repeats) {
  Attempt attempt;
  g_shared->failed = 0;
  g_shared->count = 0;
  g_shared->message[0] = 0;
  g_shared->note[0] = 0;
  std::string errors(ScratchDir() + "/stderr");
  fflush(nullptr);
  pid_t pid(fork());
  if (pid == 0) {
    InChildSetup();
    int fd(open(errors.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600));
    dup2(fd, 2);
    SaveNoteOnDeath();
    for (unsigned i(0); i < repeats; ++i) {
      ++g_shared->beat;
      Src src;
      Case cs;
      g_current = &cs;
      std::string message;
      g_mirror = g_shared->choices;
      src.StartReplay(choices);
      if (RunCase(Properties()[index], src, cs, message) == Outcome::kFail) {
        CopyText(g_shared->message, message);
        CopyText(g_shared->note, cs.text());
        g_shared->failed = 1;
        g_current = nullptr;
        break;
      }
      g_current = nullptr;
    }
    g_shared->running = 2;
    _exit(0);
  }
  int status(0);
  useconds_t nap(200);
  std::uint64_t beat(g_shared->beat);
  double beat_time(Now()), begun(Now());
  for (;;) {
    pid_t done(waitpid(pid, &status, WNOHANG));
    if (done == pid)
      break;
    if (g_shared->beat != beat) {
      beat = g_shared->beat;
      beat_time = Now();
    }
    if (repeats > 1 && Now() - begun > 60) {  // enough repetitions
      kill(pid, SIGKILL);
      KillGroup(pid);
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
      }
      return attempt;
    }
    if (Now() - beat_time > timeout) {
      kill(pid, SIGUSR1);
      usleep(300000);
      kill(pid, SIGKILL);
      KillGroup(pid);
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
      }
      attempt.note = g_shared->note;
      attempt.hung = attempt.failed = true;
      attempt.message = "case did not finish (hang or deadlock)";
      attempt.choices = SharedChoices();
      return attempt;
    }
    usleep(nap);
    nap = std::min<useconds_t>(nap * 2, 20000);
  }
  KillGroup(pid);
  attempt.choices = SharedChoices();
  attempt.note = g_shared->note;
  if (g_shared->failed) {
    attempt.failed = true;
    attempt.message = g_shared->message;
  } else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
    attempt.failed = true;
    attempt.message = DescribeStatus(status) + "\n" + ReadTail(errors);
  }
  return attempt;
}

std::vector<std::uint64_t> Shrink(std::size_t index, std::vector<std::uint64_t> best, bool hung,
                                  unsigned repeats, double budget) {
  if (hung)
    return best;
  double end(Now() + budget);
  auto smaller([](const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
    return a.size() != b.size() ? a.size() < b.size() : a < b;
  });
  auto attempt([&](const std::vector<std::uint64_t>& candidate) {
    if (Now() > end)
      return false;
    Attempt result(RunIsolated(index, candidate, 10, repeats));
    if (!result.failed || result.hung)
      return false;
    const auto& used(result.choices.empty() ? candidate : result.choices);
    std::vector<std::uint64_t> next(smaller(used, candidate) ? used : candidate);
    if (!smaller(next, best))
      return false;
    best = next;
    return true;
  });
  bool progress(true);
  while (progress && Now() < end) {
    progress = false;
    for (std::size_t chunk(std::max<std::size_t>(best.size() / 2, 1)); chunk > 0; chunk /= 2) {
      for (std::size_t i(0); i < best.size() && Now() < end;) {
        std::vector<std::uint64_t> candidate(best);
        candidate.erase(candidate.begin() + i,
                        candidate.begin() + std::min(i + chunk, candidate.size()));
        if (attempt(candidate))
          progress = true;
        else
          i += chunk;
      }
    }
    for (std::size_t i(0); i < best.size() && Now() < end; ++i) {
      if (best[i] == 0)
        continue;
      std::vector<std::uint64_t> candidate(best);
      candidate[i] = 0;
      if (attempt(candidate)) {
        progress = true;
        continue;
      }
      std::uint64_t low(0), high(best[i]);
      while (low + 1 < high && i < best.size() && Now() < end) {
        std::uint64_t mid(low + (high - low) / 2);
        candidate = best;
        if (i >= candidate.size())
          break;
        candidate[i] = mid;
        if (attempt(candidate)) {
          progress = true;
          high = mid;
        } else {
          low = mid;
        }
      }
    }
  }
  return best;
}

void WriteReplay(const std::string& path, const std::string& property,
                 const std::vector<std::uint64_t>& choices, const Attempt& attempt) {
  std::ofstream out(path);
  out << "property " << property << "\nchoices " << choices.size();
  for (auto choice : choices)
    out << ' ' << choice;
  out << "\n\n# " << attempt.message << "\n# case:\n" << attempt.note << '\n';
}

struct Totals {
  std::uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
};

// Runs in the child: cases [first, count) of property 'index'.
void SendTotals(int fd, const Totals& totals) {
  FILE* out(fdopen(dup(fd), "w"));
  fprintf(out, "evaluations %llu\ndiscarded %llu\nnontrivial %llu\n",
          (unsigned long long)totals.evaluations, (unsigned long long)totals.discarded,
          (unsigned long long)totals.nontrivial);
  for (auto h : totals.distinct)
    fprintf(out, "d %llx\n", (unsigned long long)h);
  for (const auto& label : Labels())
    fprintf(out, "l %llu %s\n", (unsigned long long)label.second, label.first.c_str());
  for (auto sample : totals.samples) {
    std::replace(sample.begin(), sample.end(), '\n', ' ');
    fprintf(out, "s %s\n", sample.c_str());
  }
  fflush(out);
  fclose(out);
}

void ReceiveTotals(const std::string& path, Totals& totals) {
  std::ifstream in(path);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream words(line);
    std::string key;
    words >> key;
    if (key == "evaluations" || key == "discarded" || key == "nontrivial") {
      std::uint64_t n(0);
      words >> n;
      (key == "evaluations" ? totals.evaluations
                            : key == "discarded" ? totals.discarded : totals.nontrivial) += n;
    } else if (key == "d") {
      std::uint64_t h(0);
      words >> std::hex >> h;
      totals.distinct.insert(h);
    } else if (key == "l") {
      std::uint64_t n(0);
      words >> n;
      std::string name;
      std::getline(words, name);
      Labels()[name.substr(1)] += n;
    } else if (key == "s" && totals.samples.size() < 12) {
      totals.samples.push_back(line.substr(2));
    }
  }
}

struct Found {
  std::string property, message, note, replay;
  bool reproduced;
};

std::uint64_t HashChoices(std::uint64_t salt, const std::vector<std::uint64_t>& choices) {
  std::uint64_t h(Mix(salt));
  for (auto c : choices)
    h = Mix(h, c);
  return h;
}

}  // namespace

std::uint64_t Src::Next() {
  state_ += 0x9e3779b97f4a7c15ULL;
  std::uint64_t x(state_);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

void Src::StartRandom(std::uint64_t seed) {
  state_ = seed;
  replay_ = false;
  record_.clear();
  pos_ = 0;
}

void Src::StartReplay(std::vector<std::uint64_t> choices) {
  input_ = std::move(choices);
  replay_ = true;
  record_.clear();
  pos_ = 0;
}

std::uint64_t Src::draw(std::uint64_t bound) {
  std::uint64_t value(0);
  if (replay_) {
    value = pos_ < input_.size() ? input_[pos_] : 0;
    ++pos_;
    if (bound && value >= bound)
      value = value % bound;
  } else {
    value = Next();
    if (bound)
      value = static_cast<std::uint64_t>((static_cast<unsigned __int128>(value) * bound) >> 64);
  }
  if (g_mirror && record_.size() < kMaxChoices) {
    g_mirror[record_.size()] = value;
    g_shared->count = record_.size() + 1;
  }
  record_.push_back(value);
  return value;
}

std::size_t Src::weighted(const std::vector<unsigned>& weights) {
  std::uint64_t total(0);
  for (auto w : weights)
    total += w;
  std::uint64_t n(draw(total));
  for (std::size_t i(0); i < weights.size(); ++i) {
    if (n < weights[i])
      return i;
    n -= weights[i];
  }
  return 0;
}

std::size_t Src::size(std::size_t max) {
  if (max == 0)
    return 0;
  switch (draw(8)) {
    case 0:
    case 1:
    case 2:
      return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 8) + 1));
    case 3:
    case 4:
      return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 40) + 1));
    case 5:
      return static_cast<std::size_t>(draw(std::min<std::size_t>(max, 300) + 1));
    case 6:
      return static_cast<std::size_t>(draw(max + 1));
    default: {
      // Near a power of two, or near max.
      std::size_t base(0);
      if (boolean()) {
        base = max;
      } else {
        unsigned bits(0);
        while ((static_cast<std::size_t>(1) << (bits + 1)) <= max && bits < 40)
          ++bits;
        base = static_cast<std::size_t>(1) << draw(bits + 1);
      }
      std::size_t delta(static_cast<std::size_t>(draw(5)));
      std::size_t result(base + delta >= 2 ? base + delta - 2 : 0);
      return std::min(result, max);
    }
  }
}

std::uint64_t Src::u64() {
  switch (draw(5)) {
    case 0:
      return draw(16);
    case 1: {
      std::uint64_t base(draw(64));
      return (static_cast<std::uint64_t>(1) << base) + draw(3) - 1;
    }
    case 2:
      return ~static_cast<std::uint64_t>(0) - draw(16);
    case 3:
      return draw(static_cast<std::uint64_t>(1) << (1 + draw(62)));
    default:
      return draw(0);
  }
}

std::string Src::bytes(std::size_t length) {
  std::string result(length, 0);
  if (!length)
    return result;
  switch (draw(6)) {
    case 0:
      for (auto& c : result)
        c = static_cast<char>('a' + draw(4));
      break;
    case 1: {
      static const std::vector<unsigned char> kSpecial{{0, 1, 0x7f, 0x80, 0xff, '\n', ' ', '0'}};
      for (auto& c : result)
        c = static_cast<char>(kSpecial[draw(kSpecial.size())]);
      break;
    }
    case 2: {
      // One seed fills it all: cheap for long content.
      std::uint64_t seed(draw(0));
      FillRandom(seed, &result[0], result.size());
      break;
    }
    case 3: {
      char c(static_cast<char>(draw(256)));
      std::fill(result.begin(), result.end(), c);
      result[draw(length)] = static_cast<char>(draw(256));
      break;
    }
    default:
      if (length > 400) {
        std::uint64_t seed(draw(0));
        FillRandom(seed, &result[0], result.size());
      } else {
        for (auto& c : result)
          c = static_cast<char>(draw(256));
      }
  }
  return result;
}

std::string Src::text(std::size_t length, const std::string& alphabet) {
  std::string result(length, 0);
  for (auto& c : result)
    c = alphabet[draw(alphabet.size())];
  return result;
}

void Case::label(const std::string& name, std::uint64_t n) { Labels()[name] += n; }

Register::Register(const char* name, Fn fn, Options options) {
  Properties().push_back(Property{name, std::move(fn), options});
}

std::string Hex(const std::string& bytes, std::size_t max) {
  static const char* kDigits("0123456789abcdef");
  std::string out;
  for (std::size_t i(0); i < bytes.size() && i < max; ++i) {
    out += kDigits[static_cast<unsigned char>(bytes[i]) >> 4];
    out += kDigits[static_cast<unsigned char>(bytes[i]) & 15];
  }
  if (bytes.size() > max)
    out += "...";
  return out + "(" + std::to_string(bytes.size()) + ")";
}

std::string Hex(const std::vector<unsigned char>& bytes, std::size_t max) {
  return Hex(std::string(bytes.begin(), bytes.end()), max);
}

void FillRandom(std::uint64_t seed, void* out, std::size_t size) {
  unsigned char* p(static_cast<unsigned char*>(out));
  std::uint64_t x(seed);
  for (std::size_t i(0); i < size; i += 8) {
    x = Mix(x + 1);
    memcpy(p + i, &x, std::min<std::size_t>(8, size - i));
  }
}

std::string ScratchDir() {
  if (g_scratch.empty()) {
    const char* base(getenv("PBT_SCRATCH"));
    std::string pattern(std::string(base ? base : "/tmp") + "/pbt-scratch-XXXXXX");
    std::vector<char> name(pattern.begin(), pattern.end());
    name.push_back(0);
    if (!mkdtemp(name.data()))
      abort();
    g_scratch = name.data();
    g_scratch_owner = getpid();
  }
  return g_scratch;
}

std::string FreshPath(const std::string& stem) {
  static std::uint64_t counter(0);
  return ScratchDir() + "/" + stem + "-" + std::to_string(getpid()) + "-" +
         std::to_string(++counter);
}

void Fail(const char* file, int line, const std::string& message) {
  const char* slash(strrchr(file, '/'));
  throw Failure(std::string(slash ? slash + 1 : file) + ":" + std::to_string(line) + ": " + message);
}

namespace {

void StartCase(Src& src, const Property& property, std::size_t index, std::uint64_t seed,
               unsigned worker, std::uint64_t i) {
  if (property.options.exhaustive)
    src.StartReplay({i});
  else
    src.StartRandom(Mix(Mix(seed, worker * 1000 + index), i));
}

// Runs the cases first, first + step .. last one after another in a fresh child.  For failures
// which need the state that earlier cases leave behind in the process.
Attempt RunSequence(std::size_t index, std::uint64_t seed, unsigned worker, std::uint64_t first,
                    std::uint64_t step, std::uint64_t last, double timeout) {
  Attempt attempt;
  g_shared->failed = g_shared->count = 0;
  g_shared->message[0] = g_shared->note[0] = 0;
  std::string errors(ScratchDir() + "/stderr-sequence");
  fflush(nullptr);
  pid_t pid(fork());
  if (pid == 0) {
    InChildSetup();
    int fd(open(errors.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600));
    dup2(fd, 2);
    g_mirror = g_shared->choices;
    for (std::uint64_t i(first); i <= last; i += step) {
      Src src;
      Case cs;
      std::string message;
      StartCase(src, Properties()[index], index, seed, worker, i);
      g_shared->case_no = i;
      ++g_shared->beat;
      if (RunCase(Properties()[index], src, cs, message) == Outcome::kFail) {
        CopyText(g_shared->message, message);
        CopyText(g_shared->note, cs.text());
        g_shared->failed = 1;
        break;
      }
    }
    _exit(0);
  }
  int status(0);
  std::uint64_t beat(g_shared->beat);
  double beat_time(Now());
  for (;;) {
    if (waitpid(pid, &status, WNOHANG) == pid)
      break;
    if (g_shared->beat != beat) {
      beat = g_shared->beat;
      beat_time = Now();
    } else if (Now() - beat_time > timeout) {
      kill(pid, SIGKILL);
      KillGroup(pid);
      while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
      }
      attempt.hung = attempt.failed = true;
      attempt.message = "case did not finish (hang or deadlock)";
      return attempt;
    }
    usleep(2000);
  }
  KillGroup(pid);
  attempt.choices = SharedChoices();
  attempt.note = g_shared->note;
  if (g_shared->failed) {
    attempt.failed = true;
    attempt.message = g_shared->message;
  } else if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
    attempt.failed = true;
    attempt.message = DescribeStatus(status) + "\n" + ReadTail(errors);
  }
  return attempt;
}

int Replay(const Settings& settings) {
  std::ifstream in(settings.replay);
  std::string word, name;
  in >> word >> name >> word;
  if (word == "sequence") {
    std::uint64_t seed(0), first(0), step(1), last(0);
    unsigned worker(0);
    in >> seed >> worker >> first >> step >> last;
    for (std::size_t i(0); i < Properties().size(); ++i) {
      if (Properties()[i].name != name)
        continue;
      Attempt attempt(
          RunSequence(i, seed, worker, first, step, last, settings.case_timeout));
      printf("%s %s\n%s\n%s\n", name.c_str(), attempt.failed ? "FAILED" : "passed",
             attempt.message.c_str(), attempt.note.c_str());
      return attempt.failed ? 1 : 0;
    }
  }
  std::size_t n(0);
  in >> n;
  std::vector<std::uint64_t> choices(n);
  for (auto& c : choices)
    in >> c;
  for (std::size_t i(0); i < Properties().size(); ++i) {
    if (Properties()[i].name != name)
      continue;
    unsigned repeats(Properties()[i].options.concurrent ? 200 : 1);
    Attempt attempt(RunIsolated(i, choices, settings.case_timeout, repeats));
    printf("%s %s\n%s\n%s\n", name.c_str(), attempt.failed ? "FAILED" : "passed",
           attempt.message.c_str(), attempt.note.c_str());
    return attempt.failed ? 1 : 0;
  }
  fprintf(stderr, "no property %s\n", name.c_str());
  return 2;
}

int RunAll(const Settings& settings) {
  double start(Now());
  Totals totals;
  std::vector<Found> found;
  std::map<std::string, std::uint64_t> per_property;
  unsigned unreproduced(0);
  bool out_of_time(false);
  std::uint64_t total_weight(0);
  for (const auto& p : Properties())
    if (!p.options.exhaustive)
      total_weight += p.options.weight;
  // What is left to do of each property.
  struct Left {
    std::size_t index;
    std::uint64_t next, count, step;
    unsigned failures;
    bool done;
  };
  std::vector<Left> all;
  for (std::size_t index(0); index < Properties().size(); ++index) {
    const Property& property(Properties()[index]);
    if (!settings.only.empty() && property.name != settings.only)
      continue;
    Left left{index, 0, 0, 1, 0, false};
    if (property.options.exhaustive) {
      left.next = settings.worker;
      left.step = settings.workers;
      left.count = property.options.exhaustive;
    } else {
      left.count = settings.cases * property.options.weight / total_weight / property.options.cost;
      left.count = std::max<std::uint64_t>(left.count, 1);
    }
    left.done = left.next >= left.count;
    all.push_back(left);
  }
  // Every property gets a fair share of the time: what one leaves unused goes to those after it,
  // and when all have had their turn, those that did not finish share what remains.
  std::size_t turn(0);
  for (;;) {
    std::size_t unfinished(0), in_pass(0);
    for (std::size_t i(0); i < all.size(); ++i) {
      unfinished += !all[i].done;
      in_pass += !all[i].done && i >= turn % all.size();
    }
    if (all.empty() || unfinished == 0)
      break;
    bool first_pass(turn < all.size());
    Left& left(all[turn++ % all.size()]);
    if (left.done)
      continue;
    double now(Now());
    if (now - start > settings.seconds && !first_pass) {
      out_of_time = true;
      break;
    }
    double slice_end(now + std::max(0.0, start + settings.seconds - now) /
                               static_cast<double>(in_pass));
    const std::size_t index(left.index);
    const Property& property(Properties()[index]);
    const std::uint64_t count(left.count), step(left.step);
    std::uint64_t& next(left.next);
    unsigned& failures(left.failures);
    bool run_once(true);
    while (next < count && failures < 2 && (run_once || Now() < slice_end)) {
      run_once = false;
      std::string totals_path(FreshPath("totals")), errors(ScratchDir() + "/stderr-run");
      g_shared->failed = 0;
      g_shared->count = 0;
      g_shared->case_no = next;
      g_shared->running = 0;
      g_shared->message[0] = g_shared->note[0] = 0;
      ++g_shared->beat;
      fflush(nullptr);
      pid_t pid(fork());
      if (pid == 0) {
        InChildSetup();
        int fd(open(totals_path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600));
        int errors_fd(open(errors.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600));
        dup2(errors_fd, 2);
        Totals mine;
        Labels().clear();
        g_mirror = g_shared->choices;
        for (std::uint64_t i(next); i < count; i += step) {
          Src src;
          Case cs;
          std::string message;
          StartCase(src, property, index, settings.seed, settings.worker, i);
          g_shared->case_no = i;
          g_shared->count = 0;
          g_shared->running = 1;
          ++g_shared->beat;
          Outcome outcome(RunCase(property, src, cs, message));
          g_shared->running = 0;
          if (outcome == Outcome::kFail) {
            CopyText(g_shared->message, message);
            CopyText(g_shared->note, cs.text());
            SendTotals(fd, mine);
            g_shared->failed = 1;
            _exit(0);
          }
          ++mine.evaluations;
          if (outcome == Outcome::kDiscard) {
            ++mine.discarded;
          } else if (cs.is_nontrivial()) {
            ++mine.nontrivial;
            mine.distinct.insert(HashChoices(index, src.choices()));
            std::string text(cs.text());
            if (!text.empty() && mine.samples.size() < 1 && (i / step) % 7 == (count > 7 * step ? 3 : 0))
              mine.samples.push_back(property.name + ": " + text.substr(0, 600));
          }
          if (Now() > slice_end)
            break;
        }
        SendTotals(fd, mine);
        g_shared->running = 2;  // finished, or at the end of its share of the time
        _exit(0);
      }
      int status(0);
      bool hung(false);
      std::uint64_t beat(g_shared->beat);
      double beat_time(Now());
      useconds_t nap(500);
      for (;;) {
        pid_t done(waitpid(pid, &status, WNOHANG));
        if (done == pid)
          break;
        if (g_shared->beat != beat) {
          beat = g_shared->beat;
          beat_time = Now();
        } else if (Now() - beat_time > settings.case_timeout) {
          kill(pid, SIGKILL);
          KillGroup(pid);
          while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
          }
          hung = true;
          break;
        }
        usleep(nap);
        nap = std::min<useconds_t>(nap * 2, 20000);
      }
      KillGroup(pid);
      std::uint64_t before(totals.evaluations);
      ReceiveTotals(totals_path, totals);
      per_property[property.name] += totals.evaluations - before;
      unlink(totals_path.c_str());
      if (!hung && g_shared->running == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        next = g_shared->case_no + step;
        break;
      }
      // A case failed, crashed or hung.
      ++failures;
      std::uint64_t case_no(g_shared->case_no);
      std::vector<std::uint64_t> choices(SharedChoices());
      Attempt seen;
      seen.failed = true;
      seen.hung = hung;
      seen.choices = choices;
      seen.message = g_shared->failed ? g_shared->message
                                      : hung ? "case did not finish (hang or deadlock)"
                                             : DescribeStatus(status) + "\n" + ReadTail(errors);
      seen.note = g_shared->note;
      if (settings.verbose)
        fprintf(stderr, "failure in %s: %s\n", property.name.c_str(), seen.message.c_str());
      // Confirm it on its own, three times, before believing it.
      unsigned repeats(property.options.concurrent ? 300 : 1);
      unsigned confirmed(0), wanted(property.options.concurrent ? 1 : 3), tries(property.options.concurrent ? 6 : 3);
      Attempt last;
      for (unsigned i(0); i < tries && confirmed < wanted; ++i) {
        Attempt again(RunIsolated(index, choices, settings.case_timeout, repeats));
        if (again.failed && !(again.hung && repeats > 1 && !hung)) {
          ++confirmed;
          last = again;
        }
      }
      bool reproduced(property.options.concurrent ? confirmed >= 1 : confirmed == 3);
      if (!reproduced && !property.options.concurrent && !hung) {
        // Perhaps it needs what the earlier cases left behind: run them all again, three times.
        unsigned again_failed(0);
        Attempt sequence;
        std::uint64_t sequence_case(case_no);
        for (unsigned i(0); i < 3; ++i) {
          sequence = RunSequence(index, settings.seed, settings.worker, next, step, case_no,
                                 settings.case_timeout);
          if (!sequence.failed || sequence.hung)
            break;
          ++again_failed;
          sequence_case = g_shared->case_no;
        }
        if (again_failed == 3) {
          left.done = true;
          Found f{property.name, sequence.message, sequence.note, "", true};
          f.replay = settings.out + "." + property.name + ".replay";
          std::ofstream replay(f.replay);
          replay << "property " << property.name << "\nsequence " << settings.seed << ' '
                 << settings.worker << ' ' << next << ' ' << step << ' ' << sequence_case
                 << "\n\n# " << sequence.message << "\n# last case:\n" << sequence.note << '\n';
          found.push_back(f);
          break;
        }
      }
      if (!reproduced) {
        ++unreproduced;
        if (settings.verbose)
          fprintf(stderr, "not reproduced (%u)\n", confirmed);
      } else {
        auto best(Shrink(index, choices, last.hung, std::min(repeats, 100u), 25));
        Attempt final_attempt(RunIsolated(index, best, settings.case_timeout, repeats));
        if (!final_attempt.failed) {
          best = choices;
          final_attempt = last;
        }
        Found f{property.name, final_attempt.message, final_attempt.note, "", true};
        f.replay = settings.out + "." + property.name + ".replay";
        WriteReplay(f.replay, property.name, best, final_attempt);
        found.push_back(f);
        left.done = true;
        break;
      }
      next = case_no + step;
    }
    left.done |= next >= count || failures >= 2;
  }
  std::ofstream out(settings.out);
  out << "{\"evaluations\": " << totals.evaluations << ", \"discarded\": " << totals.discarded
      << ", \"nontrivial\": " << totals.nontrivial << ", \"unreproduced\": " << unreproduced
      << ", \"out_of_time\": " << (out_of_time ? "true" : "false")
      << ", \"wall_s\": " << Now() - start << ",\n\"per_property\": {";
  bool comma(false);
  for (const auto& p : per_property) {
    out << (comma ? ", " : "") << JsonString(p.first) << ": " << p.second;
    comma = true;
  }
  out << "},\n\"labels\": {";
  comma = false;
  for (const auto& label : Labels()) {
    out << (comma ? ", " : "") << JsonString(label.first) << ": " << label.second;
    comma = true;
  }
  out << "},\n\"samples\": [";
  comma = false;
  for (const auto& sample : totals.samples) {
    out << (comma ? ", " : "") << JsonString(sample);
    comma = true;
  }
  out << "],\n\"distinct\": [";
  comma = false;
  for (auto h : totals.distinct) {
    out << (comma ? "," : "") << '"' << std::hex << h << std::dec << '"';
    comma = true;
  }
  out << "],\n\"found\": [";
  comma = false;
  for (const auto& f : found) {
    out << (comma ? ", " : "") << "{\"property\": " << JsonString(f.property)
        << ", \"message\": " << JsonString(f.message) << ", \"case\": " << JsonString(f.note)
        << ", \"replay\": " << JsonString(f.replay) << "}";
    comma = true;
  }
  out << "]}\n";
  out.close();
  return found.empty() ? 0 : 1;
}

}  // namespace

int Main(int argc, char** argv) {
  Settings settings;
  for (int i(1); i + 1 < argc; i += 2) {
    std::string key(argv[i]), value(argv[i + 1]);
    if (key == "--seed")
      settings.seed = std::stoull(value);
    else if (key == "--cases")
      settings.cases = std::stoull(value);
    else if (key == "--seconds")
      settings.seconds = std::stod(value);
    else if (key == "--case-timeout")
      settings.case_timeout = std::stod(value);
    else if (key == "--worker")
      settings.worker = static_cast<unsigned>(std::stoul(value));
    else if (key == "--workers")
      settings.workers = static_cast<unsigned>(std::stoul(value));
    else if (key == "--out")
      settings.out = value;
    else if (key == "--replay")
      settings.replay = value;
    else if (key == "--only")
      settings.only = value;
    else if (key == "--verbose")
      settings.verbose = value == "1";
  }
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shared == MAP_FAILED)
    return 2;
  ScratchDir();
  int result(settings.replay.empty() ? RunAll(settings) : Replay(settings));
  if (g_scratch_owner == getpid())
    RemoveTree(g_scratch);
  return result;
}

}  // namespace pbt

int main(int argc, char** argv) {
  if (getenv("PBT_PROBE") && pbt::ProbeMain) {
    int result(pbt::ProbeMain(argc, argv));
    if (getenv("PBT_PROBE_EXIT"))
      exit(result);
    fflush(nullptr);
    _exit(result);
  }
  int result(pbt::Main(argc, argv));
  fflush(nullptr);
  _exit(result);
}

// A request for a huge block fails as it would on a machine without the memory (the sanitizers would
// end the process instead).
namespace {
const std::size_t kBiggestBlock(192u << 20);

void* Allocate(std::size_t size) noexcept {
  return size > kBiggestBlock ? nullptr : std::malloc(size ? size : 1);
}
}  // unnamed namespace

void* operator new(std::size_t size) {
  if (void* block = Allocate(size))
    return block;
  throw std::bad_alloc();
}
void* operator new[](std::size_t size) { return operator new(size); }
void* operator new(std::size_t size, const std::nothrow_t&) noexcept { return Allocate(size); }
void* operator new[](std::size_t size, const std::nothrow_t&) noexcept { return Allocate(size); }
void operator delete(void* block) noexcept { std::free(block); }
void operator delete[](void* block) noexcept { std::free(block); }
void operator delete(void* block, std::size_t) noexcept { std::free(block); }
void operator delete[](void* block, std::size_t) noexcept { std::free(block); }
void operator delete(void* block, const std::nothrow_t&) noexcept { std::free(block); }
void operator delete[](void* block, const std::nothrow_t&) noexcept { std::free(block); }
