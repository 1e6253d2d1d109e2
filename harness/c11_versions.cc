// C11: structured data versions against the model.
#include "sdv_model.h"

using namespace sdv;

namespace {

void Limits(pbt::Src& src, Model& model) {
  model.max_versions = static_cast<std::uint32_t>(src.chance(1, 4) ? 100 : 1 + src.draw(8));
  model.max_branches = static_cast<std::uint32_t>(src.chance(1, 4) ? 20 : 1 + src.draw(4));
}

void Step(pbt::Src& src, pbt::Case& cs, const Universe& universe, Sdv& real, Model& model) {
  switch (src.weighted({12, 3, 1})) {
    case 0: {
      auto put(NextPut(src, universe, model));
      cs.note() << put.first << ">" << put.second << ' ';
      bool existed(model.Has(put.second));
      std::string before(model.parent.empty() ? std::string() : View(model));
      auto allowed(model.Put(put.first, put.second));
      Outcome outcome(RealPut(real, put.first, put.second));
      REQUIRE(std::find(allowed.begin(), allowed.end(), outcome) != allowed.end())
          << put.first << ">" << put.second << " in " << before << " gave " << outcome
          << " instead of " << allowed.front();
      std::ostringstream label;
      label << (outcome.result == Result::kEvicted ? std::string("put evicted")
                                                   : std::string("put "));
      if (outcome.result != Result::kEvicted)
        label << outcome;
      if (existed)
        label << " (again)";
      cs.label(label.str());
      break;
    }
    case 1: {
      Name name(src.pick(universe.names));
      auto tips(model.Tips());
      if (!tips.empty() && src.chance(3, 4))
        name = src.pick(tips);
      cs.note() << "delete " << name << ' ';
      Outcome expected(model.Delete(name));
      Outcome outcome(Try([&] {
        real.DeleteBranchUntilFork(Real(name));
        return Outcome{Result::kNothing, None()};
      }));
      REQUIRE_EQ(outcome, expected) << "deleting " << name;
      break;
    }
    default:
      if (src.chance(1, 3)) {
        cs.note() << "clear ";
        real.clear();
        model.Clear();
      }
  }
  RequireSame(real, model, universe.names);
}

PROPERTY(HistoriesFollowModel, (pbt::Options{8})) {
  Universe universe(MakeUniverse(src));
  Model model;
  Limits(src, model);
  cs.note() << "limits " << model.max_versions << '/' << model.max_branches << ": ";
  Sdv real(model.max_versions, model.max_branches);
  std::size_t steps(1 + src.size(30));
  std::size_t biggest(0);
  for (std::size_t i(0); i < steps; ++i) {
    Step(src, cs, universe, real, model);
    biggest = std::max(biggest, model.parent.size());
  }
  if (biggest >= 3 || biggest == model.max_versions)
    cs.nontrivial();
}

// The same versions in any order give the same tree, if there is room.
PROPERTY(AnyArrivalOrder, (pbt::Options{3})) {
  Universe universe(MakeUniverse(src, true));
  std::vector<Name> order(universe.names);
  if (src.boolean())
    order.erase(order.begin() + src.index(order.size()));  // leaves orphans
  src.shuffle(order);
  Model model;
  model.max_versions = 100;
  model.max_branches = 20;
  Sdv real(100, 20);
  for (const auto& n : order) {
    cs.note() << n << ' ';
    auto allowed(model.Put(universe.parent[n], n));
    REQUIRE_EQ(RealPut(real, universe.parent[n], n), allowed.front()) << n;
  }
  std::map<Name, Name> expected;
  for (const auto& n : order)
    expected[n] = universe.parent[n];
  REQUIRE(model.parent == expected);
  RequireSame(real, model, universe.names);
  if (order.size() >= 3)
    cs.nontrivial();
}

// Two trees swapped, and then used further.
PROPERTY(SwappedTreesGoOn, (pbt::Options{3})) {
  Universe universe(MakeUniverse(src));
  Model model[2];
  std::unique_ptr<Sdv> real[2];
  for (int i(0); i < 2; ++i) {
    Limits(src, model[i]);
    real[i].reset(new Sdv(model[i].max_versions, model[i].max_branches));
  }
  std::size_t steps(2 + src.size(24));
  bool swapped(false);
  for (std::size_t i(0); i < steps; ++i) {
    if (src.chance(1, 5)) {
      cs.note() << "swap ";
      swap(*real[0], *real[1]);
      std::swap(model[0], model[1]);
      swapped = true;
      RequireSame(*real[0], model[0], universe.names);
      RequireSame(*real[1], model[1], universe.names);
    } else {
      int which(static_cast<int>(src.draw(2)));
      cs.note() << which << ":";
      Step(src, cs, universe, *real[which], model[which]);
    }
    if (src.chance(1, 20)) {
      cs.note() << "destroy one ";
      real[1].reset(new Sdv(model[1].max_versions, model[1].max_branches));
      model[1].Clear();
    }
  }
  if (swapped && model[0].parent.size() + model[1].parent.size() >= 3)
    cs.nontrivial();
}

PROPERTY(VersionNames) {
  Name a{src.boolean() ? src.draw(3) : src.u64(), static_cast<unsigned char>(src.draw(3))};
  Name b{src.boolean() ? a.index : src.draw(3), static_cast<unsigned char>(src.draw(3))};
  auto make([](const Name& n) {
    return n.id ? VersionName(n.index, maidsafe::Identity(std::vector<unsigned char>(64, n.id)))
                : VersionName(n.index, maidsafe::Identity());
  });
  VersionName x(make(a)), y(make(b));
  cs.note() << a.index << '/' << unsigned(a.id) << ' ' << b.index << '/' << unsigned(b.id);
  if (a != b)
    cs.nontrivial();
  if (src.boolean())
    x.forking_child_count = static_cast<std::uint32_t>(src.draw(9));
  REQUIRE_EQ(x == y, a == b);
  REQUIRE_EQ(x != y, a != b);
  REQUIRE_EQ(x < y, a < b);
  REQUIRE_EQ(x > y, b < a);
  REQUIRE_EQ(x <= y, !(b < a));
  REQUIRE_EQ(x >= y, !(a < b));
  VersionName copy(x), assigned;
  assigned = x;
  swap(copy, y);
  REQUIRE(y == x && assigned == x);
  REQUIRE(y.forking_child_count == x.forking_child_count);
  REQUIRE(copy == make(b));
}

PROPERTY(LimitsMustBePositive, (pbt::Options{1, 20})) {
  std::uint32_t versions(static_cast<std::uint32_t>(src.boolean() ? src.draw(3) : src.u64()));
  std::uint32_t branches(static_cast<std::uint32_t>(src.boolean() ? src.draw(3) : src.u64()));
  cs.note() << versions << '/' << branches;
  cs.nontrivial();
  Outcome outcome(Try([&] {
    Sdv real(versions, branches);
    REQUIRE_EQ(real.max_versions(), versions);
    REQUIRE_EQ(real.max_branches(), branches);
    REQUIRE(real.Get().empty());
    return Outcome{Result::kNothing, None()};
  }));
  REQUIRE_EQ(outcome, (Outcome{versions && branches ? Result::kNothing : Result::kInvalid,
                               None()}));
}

}  // unnamed namespace
