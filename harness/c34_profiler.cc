// C34: the profiler's report.
#include "pbt.h"

#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "maidsafe/common/profiler.h"
#ifdef PERTURBED
#include "perturb.h"
#endif

namespace profile = maidsafe::profile;
using Duration = std::chrono::high_resolution_clock::duration;

namespace {

struct Numbers {
  std::uint64_t count = 0;
  std::uint64_t average = 0, total = 0;  // in nanoseconds
  bool operator==(const Numbers& other) const {
    return count == other.count && average == other.average && total == other.total;
  }
};

using Listing = std::vector<std::pair<std::string, Numbers>>;

std::string Trim(const std::string& text) {
  auto begin(text.find_first_not_of(" \t"));
  if (begin == std::string::npos)
    return "";
  return text.substr(begin, text.find_last_not_of(" \t") - begin + 1);
}

// "12.000000345 s"
bool ParseDuration(const std::string& text, std::uint64_t& nanoseconds) {
  auto point(text.find('.'));
  if (point == std::string::npos || text.size() != point + 12 || text.substr(point + 10) != " s")
    return false;
  nanoseconds = 0;
  for (char c : text.substr(0, point) + text.substr(point + 1, 9)) {
    if (c < '0' || c > '9')
      return false;
    nanoseconds = nanoseconds * 10 + static_cast<std::uint64_t>(c - '0');
  }
  return true;
}

// The four listings; "" or what is wrong with the text.
std::string Parse(const std::string& report, std::vector<Listing>& listings) {
  static const std::vector<std::string> kTitles{"Sorted by name", "Sorted by call count",
                                                "Sorted by average duration",
                                                "Sorted by total duration"};
  std::istringstream stream(report);
  std::string line, name;
  Numbers numbers;
  int parts(0);
  while (std::getline(stream, line)) {
    if (listings.size() < 4 && line == kTitles[listings.size()]) {
      listings.emplace_back();
      std::getline(stream, line);
      if (line.empty() || line.find_first_not_of('=') != std::string::npos)
        return "no line below a title";
      continue;
    }
    if (line.empty() || listings.empty())
      continue;
    auto colon(line.find(':'));
    auto key(colon == std::string::npos ? "" : Trim(line.substr(0, colon)));
    auto value(colon == std::string::npos ? "" : Trim(line.substr(colon + 1)));
    if (line.compare(0, 2, "  ") == 0 && parts > 0) {
      if (key == "Called" && parts == 1) {
        std::istringstream in(value);
        std::string times;
        if (!(in >> numbers.count >> times) || times != "times")
          return "bad count: " + line;
      } else if (key == "Average duration" && parts == 2) {
        if (!ParseDuration(value, numbers.average))
          return "bad duration: " + line;
      } else if (key == "Total duration" && parts == 3) {
        if (!ParseDuration(value, numbers.total))
          return "bad duration: " + line;
        listings.back().push_back(std::make_pair(name, numbers));
      } else {
        return "unexpected: " + line;
      }
      parts = parts == 3 ? 0 : parts + 1;
      continue;
    }
    if (parts)
      return "incomplete entry before " + line;
    name = line;
    numbers = Numbers();
    parts = 1;
  }
  if (parts)
    return "incomplete entry at the end";
  return listings.size() == 4 ? "" : std::to_string(listings.size()) + " listings";
}

// Runs in a process of its own and returns the report printed at its end, or throws.
std::string Report(const std::function<void()>& work) {
  int pipes[2];
  REQUIRE_EQ(pipe(pipes), 0);
  pid_t child(fork());
  if (child == 0) {
    std::ostringstream out;
    std::cout.rdbuf(out.rdbuf());
    work();
    profile::Profiler::Instance().~Profiler();
    auto text(out.str() + "(end)");
    std::size_t done(0);
    while (done < text.size()) {
      auto n(write(pipes[1], text.data() + done, text.size() - done));
      if (n <= 0)
        _exit(3);
      done += static_cast<std::size_t>(n);
    }
    _exit(0);
  }
  close(pipes[1]);
  std::string text;
  char buffer[4096];
  ssize_t n;
  while ((n = read(pipes[0], buffer, sizeof buffer)) > 0)
    text.append(buffer, static_cast<std::size_t>(n));
  close(pipes[0]);
  int status(0);
  waitpid(child, &status, 0);
  REQUIRE(status == 0) << "the process ended with status " << status;
  REQUIRE(text.size() >= 5 && text.substr(text.size() - 5) == "(end)");
  text.resize(text.size() - 5);
  return text;
}

// The four listings contain the same, each in its order.
Listing CheckListings(const std::string& report) {
  std::vector<Listing> listings;
  auto error(Parse(report, listings));
  REQUIRE(error.empty()) << error << "\n" << report;
  auto first(listings[0]);
  for (std::size_t i(1); i < first.size(); ++i)
    REQUIRE(first[i - 1].first < first[i].first) << "not sorted by name";
  for (std::size_t l(1); l < 4; ++l) {
    auto sorted(listings[l]);
    for (std::size_t i(1); i < sorted.size(); ++i) {
      const auto& a(sorted[i - 1].second);
      const auto& b(sorted[i].second);
      REQUIRE(l == 1 ? a.count >= b.count : l == 2 ? a.average >= b.average : a.total >= b.total)
          << "listing " << l << " not sorted";
    }
    std::sort(sorted.begin(), sorted.end(),
              [](const Listing::value_type& x, const Listing::value_type& y) {
                return x.first < y.first;
              });
    REQUIRE(sorted == first) << "listing " << l << " has other entries";
  }
  for (const auto& entry : first)
    REQUIRE_EQ(entry.second.average, entry.second.total / entry.second.count);
  return first;
}

struct Place {
  std::string file;
  int line;
  std::string function;
  std::string name;  // in the report
};

Place DrawPlace(pbt::Src& src, std::size_t number) {
  static const std::string kLetters("abcXYZ_09");
  Place place;
  std::string tail(src.text(1 + src.draw(6), kLetters) + std::to_string(number) + ".cc");
  std::string root;
  switch (src.weighted({4, 2, 1, 1})) {
    case 0:
      root = "/home/" + src.text(src.draw(4), kLetters) + "/maidsafe/";
      if (src.boolean())
        root = "/opt/maidsafe/common/src/maidsafe/";
      tail = "common/" + tail;
      break;
    case 1:  // elsewhere
      tail = src.text(src.draw(5), kLetters + "/") + tail;
      break;
    case 2:
      root = "C:\\maidsafe\\";
      tail = "dir\\" + tail;
      break;
    default:
      root = "/x/maidsafe";
      tail = "";
      break;
  }
  place.file = root + tail;
  place.line = static_cast<int>(src.draw(src.boolean() ? 5 : 100000));
  place.function = "void f" + std::to_string(number) + "(" + src.text(src.draw(10), "int<>:, &*") + ")";
  std::string shown(root == "/x/maidsafe" ? root : tail);
  std::replace(shown.begin(), shown.end(), '\\', '/');
  place.name = shown + ":" + std::to_string(place.line) + "] " + place.function;
  return place;
}

std::uint64_t DrawDuration(pbt::Src& src) {
  switch (src.weighted({4, 3, 2, 1})) {
    case 0:
      return src.draw(5000);
    case 1:
      return src.draw(5) * 1000000000ULL + src.draw(1000000000ULL);
    case 2:
      return src.draw(1000000) * 1000000000ULL + src.pick(std::vector<std::uint64_t>{0, 1, 999999999});
    default:
      return src.draw(1ULL << 60);
  }
}

}  // namespace

PROPERTY(Entries, (pbt::Options{3, 30, true, 0})) {
  std::vector<Place> places;
  for (std::size_t i(0), n(1 + src.size(8)); i < n; ++i) {
    if (i && src.chance(1, 3)) {  // differs in one part only
      auto place(places.back());
      place.line += 1000000;
      auto colon(place.name.rfind("] " + place.function));
      colon = place.name.rfind(':', colon);
      place.name = place.name.substr(0, colon + 1) + std::to_string(place.line) + "] " + place.function;
      places.push_back(place);
    } else {
      places.push_back(DrawPlace(src, i));
    }
  }
  std::size_t threads(src.draw(4));  // 0: this one only
  std::vector<std::vector<std::pair<std::size_t, std::uint64_t>>> records(std::max<std::size_t>(threads, 1));
  std::map<std::string, Numbers> model;
  std::uint64_t total(0);
  std::size_t count(0);
  for (auto& list : records) {
    for (std::size_t i(0), n(src.size(20)); i < n; ++i) {
      auto place(src.index(places.size()));
      auto duration(DrawDuration(src));
      if (total + duration >= 1ULL << 62)
        duration = src.draw(1000);
      total += duration;
      list.push_back(std::make_pair(place, duration));
      auto& numbers(model[places[place].name]);
      ++numbers.count;
      numbers.total += duration;
      cs.note() << place << '+' << duration << ' ';
      ++count;
    }
    cs.note() << "| ";
  }
  for (auto& entry : model)
    entry.second.average = entry.second.total / entry.second.count;
#ifdef PERTURBED
  unsigned one_in(src.boolean() ? 0 : 2 + static_cast<unsigned>(src.draw(30)));
  auto perturb_seed(src.draw(1 << 30));
#endif
  auto report(Report([&] {
#ifdef PERTURBED
    perturb::Set(one_in, perturb_seed);
#endif
    auto run([&](std::size_t t) {
      for (const auto& record : records[t]) {
        const auto& place(places[record.first]);
        profile::Profiler::Instance().AddEntry(
            profile::ProfileEntry::Location(place.file, place.line, place.function),
            std::chrono::duration_cast<Duration>(std::chrono::nanoseconds(record.second)));
      }
    });
    if (!threads)
      return run(0);
    std::vector<std::thread> running;
    for (std::size_t t(0); t < threads; ++t)
      running.emplace_back(run, t);
    for (auto& thread : running)
      thread.join();
  }));
  auto found(CheckListings(report));
  REQUIRE_EQ(found.size(), model.size()) << "entries\n" << report;
  for (const auto& entry : found) {
    REQUIRE(model.count(entry.first)) << "unknown place " << entry.first;
    const auto& expected(model[entry.first]);
    REQUIRE_EQ(entry.second.count, expected.count) << entry.first;
    REQUIRE_EQ(entry.second.total, expected.total) << entry.first;
    REQUIRE_EQ(entry.second.average, expected.average) << entry.first;
  }
  if (count >= 2)
    cs.nontrivial();
}

#ifndef PERTURBED

// Locations are plain values, ordered by file, line and function.
PROPERTY(Locations, (pbt::Options{1, 1})) {
  using Location = profile::ProfileEntry::Location;
  struct Parts {
    std::string file;
    int line;
    std::string function;
  };
  std::vector<Parts> model;
  std::vector<Location> locations;
  auto draw([&] {
    // Short ones are often alike, long ones are held elsewhere.
    bool wide(src.chance(1, 4));
    return Parts{src.text(src.draw(wide ? 40 : 2), "ab/"),
                 static_cast<int>(src.range(-1, wide ? 100000 : 1)),
                 src.text(src.draw(wide ? 40 : 2), "fg")};
  });
  auto make([](const Parts& parts) {
    return Location(parts.file, parts.line, parts.function);
  });
  for (std::size_t i(0), n(2 + src.draw(3)); i < n; ++i) {
    model.push_back(draw());
    locations.push_back(make(model.back()));
    cs.note() << '(' << model[i].file << ' ' << model[i].line << ' ' << model[i].function << ") ";
  }
  cs.nontrivial();
  for (std::size_t step(0), n(1 + src.size(12)); step < n; ++step) {
    auto i(src.index(model.size())), j(src.index(model.size()));
    switch (src.draw(6)) {
      case 0:
        cs.note() << i << '=' << j << ' ';
        locations[i] = locations[j];
        model[i] = Parts(model[j]);
        break;
      case 1: {
        cs.note() << "swap " << i << ' ' << j << ' ';
        using std::swap;
        swap(locations[i], locations[j]);
        std::swap(model[i], model[j]);
        break;
      }
      case 2: {
        cs.note() << "move " << j << " to " << i << ' ';
        Location moved(std::move(locations[j]));
        locations[j] = make(model[j]);
        locations[i] = std::move(moved);
        model[i] = Parts(model[j]);
        break;
      }
      case 3: {
        cs.note() << "copy " << j << " to " << i << ' ';
        const Location copy(locations[j]);
        locations[j] = make(model[j] = draw());
        if (i != j) {
          locations[i] = copy;
          model[i] = Parts{copy.file, copy.line, copy.function};
        }
        break;
      }
      case 4:
        cs.note() << "change " << i << ' ';
        model[i] = draw();
        locations[i].file = model[i].file;
        locations[i].line = model[i].line;
        locations[i].function = model[i].function;
        break;
      default: {
        auto compare([](const Parts& a, const Parts& b) {
          int file(a.file.compare(b.file)), function(a.function.compare(b.function));
          return file ? file < 0 : a.line != b.line ? a.line < b.line : function < 0;
        });
        REQUIRE_EQ(locations[i] < locations[j], compare(model[i], model[j])) << i << " < " << j;
        break;
      }
    }
    for (std::size_t k(0); k < model.size(); ++k) {
      REQUIRE_EQ(locations[k].file, model[k].file) << k;
      REQUIRE_EQ(locations[k].line, model[k].line) << k;
      REQUIRE_EQ(locations[k].function, model[k].function) << k;
    }
  }
}

namespace {

struct Scope {
  int place;
  unsigned sleep;  // in microseconds
  bool leave_by_exception;
  std::vector<Scope> inner;
};

Scope DrawScope(pbt::Src& src, int depth) {
  Scope scope{static_cast<int>(src.draw(3)),
              src.chance(1, 4) ? static_cast<unsigned>(src.draw(2000)) : 0, src.chance(1, 6), {}};
  if (depth < 4)
    for (std::size_t i(0), n(src.draw(4)); i < n; ++i)
      scope.inner.push_back(DrawScope(src, depth + 1));
  return scope;
}

void Run(const Scope& scope);

void Inside(const Scope& scope) {
  if (scope.sleep)
    usleep(scope.sleep);
  for (const auto& inner : scope.inner) {
    try {
      Run(inner);
    } catch (int) {
    }
  }
  if (scope.leave_by_exception)
    throw 1;
}

void First(const Scope& scope) {
  SCOPED_PROFILE
  Inside(scope);
}
void Second(const Scope& scope) {
  SCOPED_PROFILE
  Inside(scope);
}
void Third(const Scope& scope) {
  SCOPED_PROFILE
  Inside(scope);
}

void Run(const Scope& scope) {
  return scope.place == 0 ? First(scope) : scope.place == 1 ? Second(scope) : Third(scope);
}

// Least times to be spent at each place, outer scopes including the inner ones.
std::uint64_t Least(const Scope& scope, Numbers (&least)[3]) {
  std::uint64_t spent(scope.sleep * 1000ULL);
  for (const auto& inner : scope.inner)
    spent += Least(inner, least);
  ++least[scope.place].count;
  least[scope.place].total += spent;
  return spent;
}

}  // namespace

PROPERTY(Scopes, (pbt::Options{1, 60, false, 0})) {
  auto scope(DrawScope(src, 0));
  Numbers least[3];
  Least(scope, least);
  cs.note() << least[0].count << ' ' << least[1].count << ' ' << least[2].count << " scopes";
  auto start(std::chrono::high_resolution_clock::now());
  auto report(Report([&] {
    try {
      Run(scope);
    } catch (int) {
    }
  }));
  auto spent(static_cast<std::uint64_t>(std::chrono::duration_cast<std::chrono::nanoseconds>(
      std::chrono::high_resolution_clock::now() - start).count()));
  auto found(CheckListings(report));
  static const char* const kNames[] = {"First(", "Second(", "Third("};
  std::size_t places(0);
  for (int i(0); i < 3; ++i) {
    const Numbers* numbers(nullptr);
    for (const auto& entry : found)
      if (entry.first.find(kNames[i]) != std::string::npos)
        numbers = &entry.second;
    if (!least[i].count) {
      REQUIRE(!numbers) << kNames[i] << " was never entered";
      continue;
    }
    ++places;
    REQUIRE(numbers) << kNames[i] << " is missing";
    REQUIRE_EQ(numbers->count, least[i].count) << kNames[i];
    REQUIRE(numbers->total >= least[i].total) << kNames[i] << numbers->total;
    REQUIRE(numbers->total <= spent * numbers->count) << kNames[i] << numbers->total;
  }
  REQUIRE_EQ(found.size(), places);
  if (least[0].count + least[1].count + least[2].count >= 2)
    cs.nontrivial();
}

#endif
