// C07: scope guards.
#include "pbt.h"

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "maidsafe/common/on_scope_exit.h"

namespace ms = maidsafe;

namespace {

struct Leave {};  // thrown to leave scopes

struct Walk {
  pbt::Src& src;
  pbt::Case& cs;
  std::vector<int> ran, expected;  // ids of the actions, in order
  int next = 0, depth = 0, budget = 40, replaced = 0, released = 0, left_by_exception = 0;

  std::function<void()> Action(int id) {
    return [this, id] { ran.push_back(id); };
  }

  // A scope with one guard and possibly further scopes inside.
  void Scope() {
    --budget;
    int armed(-1);
    std::vector<int> inner_expected;
    try {
      bool start_empty(src.chance(1, 8));
      armed = start_empty ? -1 : next++;
      cs.note() << "{" << armed << " ";
      ms::on_scope_exit guard(start_empty ? ms::on_scope_exit::ExitAction() : Action(armed));
      std::size_t steps(src.draw(5));
      for (std::size_t i(0); i < steps && budget > 0; ++i) {
        --budget;
        switch (src.draw(6)) {
          case 0:
            guard.Release();
            armed = -1;
            ++released;
            cs.note() << "release ";
            break;
          case 1:
            armed = next++;
            guard.SetAction(Action(armed));
            ++replaced;
            cs.note() << "set" << armed << ' ';
            break;
          case 2:
            guard.SetAction();
            armed = -1;
            cs.note() << "unset ";
            break;
          case 3:
          case 4:
            if (depth < 6) {
              ++depth;
              Scope();
              --depth;
            }
            break;
          default:
            if (src.chance(1, 3)) {
              cs.note() << "throw ";
              throw Leave();
            }
        }
        REQUIRE(ran == expected) << "an action ran before its scope ended";
      }
      if (armed >= 0)
        expected.push_back(armed);
    } catch (const Leave&) {
      ++left_by_exception;
      if (armed >= 0)
        expected.push_back(armed);
      cs.note() << "}! ";
      Check();
      if (depth > 0 && src.boolean()) {
        // Goes on outwards: the outer scope is left too.
        --depth;
        throw;
      }
      return;
    }
    cs.note() << "} ";
    Check();
  }
  void Check() {
    REQUIRE_EQ(ran.size(), expected.size()) << "actions run";
    REQUIRE(ran == expected) << "wrong actions ran";
  }
};

}  // namespace

PROPERTY(Nesting, pbt::Options{4}) {
  Walk walk{src, cs};
  std::size_t scopes(1 + src.draw(3));
  for (std::size_t i(0); i < scopes; ++i) {
    walk.depth = 0;
    walk.Scope();
  }
  if (walk.next > 1)
    cs.nontrivial();
  if (walk.left_by_exception)
    cs.label("left by exception");
  if (walk.released)
    cs.label("released");
  if (walk.replaced)
    cs.label("replaced");
}

namespace {

template <typename T, typename Make>
void Revert(pbt::Src& src, pbt::Case& cs, Make make) {
  std::vector<T> variables;
  std::size_t n(1 + src.draw(4));
  for (std::size_t i(0); i < n; ++i)
    variables.push_back(make());
  const std::vector<T> original(variables);
  std::vector<T> expected(variables);
  bool by_exception(src.boolean());
  std::set<std::size_t> released;
  try {
    std::vector<std::unique_ptr<ms::on_scope_exit>> guards;
    struct Unwind {  // innermost first, as the language does for nested scopes
      std::vector<std::unique_ptr<ms::on_scope_exit>>& g;
      ~Unwind() {
        while (!g.empty())
          g.pop_back();
      }
    } unwind{guards};
    std::vector<std::pair<std::size_t, T>> saved;
    std::size_t steps(src.draw(10));
    for (std::size_t i(0); i < steps; ++i) {
      std::size_t v(src.index(n));
      switch (src.draw(3)) {
        case 0:
          guards.push_back(std::unique_ptr<ms::on_scope_exit>(
              new ms::on_scope_exit(ms::on_scope_exit::RevertValue(variables[v]))));
          saved.emplace_back(v, variables[v]);
          cs.note() << "guard" << v << ' ';
          break;
        case 1:
          variables[v] = make();
          cs.note() << "change" << v << ' ';
          break;
        default:
          if (!guards.empty()) {
            std::size_t g(src.index(guards.size()));
            guards[g]->Release();
            saved[g].first = n;
            cs.note() << "release#" << g << ' ';
          }
      }
    }
    expected = variables;
    for (auto i(saved.rbegin()); i != saved.rend(); ++i)
      if (i->first < n)
        expected[i->first] = i->second;
    if (saved.size() > 1)
      cs.nontrivial();
    if (by_exception)
      throw Leave();
  } catch (const Leave&) {
  }
  REQUIRE(variables == expected) << "values after the scope";
}

}  // namespace

PROPERTY(RevertValues, pbt::Options{2}) {
  switch (src.draw(3)) {
    case 0:
      return Revert<int>(src, cs, [&] { return static_cast<int>(src.range(-100, 100)); });
    case 1:
      return Revert<std::string>(src, cs, [&] { return src.blob(40); });
    default:
      return Revert<std::map<int, std::vector<std::string>>>(src, cs, [&] {
        std::map<int, std::vector<std::string>> m;
        std::size_t n(src.draw(4));
        for (std::size_t i(0); i < n; ++i)
          m[static_cast<int>(src.draw(5))].push_back(src.blob(20));
        return m;
      });
  }
}

namespace {

// An action whose copying fails at some point.
struct Fragile {
  int* copies_left;
  int* runs;
  std::string load;
  Fragile(int* copies_in, int* runs_in) : copies_left(copies_in), runs(runs_in), load(50, 'x') {}
  Fragile(const Fragile& other) : copies_left(other.copies_left), runs(other.runs), load(other.load) {
    if (*copies_left == 0)
      throw std::bad_alloc();
    --*copies_left;
  }
  Fragile(Fragile&& other) noexcept : copies_left(other.copies_left),
                                      runs(other.runs),
                                      load(other.load) {}
  void operator()() const {
    if (load != std::string(50, 'x'))
      *runs += 1000;
    ++*runs;
  }
};

}  // namespace

// When the guard cannot be made, its action runs at once and the failure is reported.
PROPERTY(CannotBeMade) {
  int copies(static_cast<int>(src.draw(5))), runs(0);
  bool made(false), release(src.boolean());
  cs.note() << "copying fails after " << copies;
  cs.nontrivial();
  try {
    Fragile action(&copies, &runs);
    ms::on_scope_exit guard(std::move(action));
    made = true;
    REQUIRE_EQ(runs, 0);
    if (release)
      guard.Release();
  } catch (const std::bad_alloc&) {
    REQUIRE(!made);
    cs.label("could not be made");
  }
  REQUIRE_EQ(runs, (made && release) ? 0 : 1);
}
