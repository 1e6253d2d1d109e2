// C12: serialised structured data versions.
#include "sdv_model.h"

#include "boost/optional/optional.hpp"

#include "maidsafe/common/serialisation/serialisation.h"

using namespace sdv;
namespace ms = maidsafe;

namespace {

void Limits(pbt::Src& src, Model& model) {
  model.max_versions = static_cast<std::uint32_t>(src.chance(1, 3) ? 100 : 1 + src.draw(8));
  model.max_branches = static_cast<std::uint32_t>(src.chance(1, 3) ? 20 : 1 + src.draw(4));
}

void PutSome(pbt::Src& src, pbt::Case& cs, const Universe& universe, Sdv& real, Model& model) {
  std::size_t steps(src.size(16));
  for (std::size_t i(0); i < steps; ++i) {
    if (src.chance(1, 10)) {
      auto tips(model.Tips());
      if (!tips.empty()) {
        Name tip(src.pick(tips));
        cs.note() << "delete " << tip << ' ';
        model.Delete(tip);
        real.DeleteBranchUntilFork(Real(tip));
      }
      continue;
    }
    auto put(NextPut(src, universe, model));
    cs.note() << put.first << ">" << put.second << ' ';
    auto allowed(model.Put(put.first, put.second));
    Outcome outcome(RealPut(real, put.first, put.second));
    REQUIRE(std::find(allowed.begin(), allowed.end(), outcome) != allowed.end())
        << put.first << ">" << put.second << " gave " << outcome << " instead of "
        << allowed.front();
  }
}

std::vector<unsigned char> Bytes(const Sdv::serialised_type& s) { return s->string(); }

PROPERTY(RestoredTreeBehavesAlike, (pbt::Options{6})) {
  Universe universe(MakeUniverse(src));
  Model model;
  Limits(src, model);
  cs.note() << "limits " << model.max_versions << '/' << model.max_branches << ": ";
  Sdv original(model.max_versions, model.max_branches);
  PutSome(src, cs, universe, original, model);
  if (model.parent.size() >= 3)
    cs.nontrivial();
  cs.label("orphans " + std::string(model.Orphans().empty() ? "no" : "yes"));
  auto form(original.Serialise());
  Sdv restored(form);
  RequireSame(original, model, universe.names);
  RequireSame(restored, model, universe.names);
  REQUIRE(Bytes(restored.Serialise()) == Bytes(form)) << "serialises differently";
  Sdv assigned(1 + static_cast<std::uint32_t>(src.draw(3)), 1);
  if (src.boolean())
    assigned.Put(VersionName(), Real(universe.names.back()));
  assigned = Sdv(form);
  RequireSame(assigned, model, universe.names);
  cs.note() << "| ";
  // The same operations on all of them.
  std::size_t steps(src.size(12));
  for (std::size_t i(0); i < steps; ++i) {
    if (src.chance(1, 6)) {
      auto tips(model.Tips());
      if (tips.empty())
        continue;
      Name tip(src.pick(tips));
      cs.note() << "delete " << tip << ' ';
      model.Delete(tip);
      original.DeleteBranchUntilFork(Real(tip));
      restored.DeleteBranchUntilFork(Real(tip));
      assigned.DeleteBranchUntilFork(Real(tip));
    } else {
      auto put(NextPut(src, universe, model));
      cs.note() << put.first << ">" << put.second << ' ';
      model.Put(put.first, put.second);
      Outcome a(RealPut(original, put.first, put.second));
      Outcome b(RealPut(restored, put.first, put.second));
      Outcome c(RealPut(assigned, put.first, put.second));
      REQUIRE_EQ(b, a) << put.first << ">" << put.second << " on the restored tree";
      REQUIRE_EQ(c, a) << put.first << ">" << put.second << " on the assigned tree";
    }
    RequireSame(original, model, universe.names);
    RequireSame(restored, model, universe.names);
    RequireSame(assigned, model, universe.names);
  }
  REQUIRE(Bytes(restored.Serialise()) == Bytes(original.Serialise()));
  REQUIRE(Bytes(assigned.Serialise()) == Bytes(original.Serialise()));
}

bool HasCircle(const std::map<Name, Name>& parent) {
  for (const auto& start : parent) {
    Name n(start.first);
    for (std::size_t i(0); parent.count(n); ++i) {
      if (i > parent.size())
        return true;
      n = parent.at(n);
    }
  }
  return false;
}

PROPERTY(MergeIsUnion, (pbt::Options{6})) {
  Universe universe(MakeUniverse(src));
  Model mine, theirs;
  Limits(src, mine);
  Limits(src, theirs);
  bool roomy(src.chance(2, 3));
  if (roomy) {
    theirs.max_versions = 100;
    theirs.max_branches = 50;
  }
  Sdv real(mine.max_versions, mine.max_branches);
  Sdv other(theirs.max_versions, theirs.max_branches);
  cs.note() << "mine " << mine.max_versions << '/' << mine.max_branches << ": ";
  PutSome(src, cs, universe, real, mine);
  cs.note() << "; theirs " << theirs.max_versions << '/' << theirs.max_branches << ": ";
  Universe other_universe(universe);
  if (src.chance(1, 3)) {  // versions the other doesn't have
    Universe more(MakeUniverse(src));
    for (const auto& n : more.names) {
      if (!universe.parent.count(n)) {
        other_universe.names.push_back(n);
        other_universe.parent[n] = more.parent[n];
      }
    }
    if (other_universe.parent.size() > universe.parent.size() && universe.names[0].index == 0)
      other_universe.parent[other_universe.names.back()] = src.pick(universe.names);
  }
  for (const auto& n : other_universe.names) {
    if (n.index == 0)
      other_universe.parent[n] = None();
  }
  PutSome(src, cs, other_universe, other, theirs);
  if (mine.parent.size() >= 2 && theirs.parent.size() >= 2)
    cs.nontrivial();

  std::map<Name, Name> merged(theirs.parent);
  bool conflict(false);
  std::size_t roots(0);
  for (const auto& p : mine.parent) {
    auto inserted(merged.insert(p));
    if (!inserted.second && inserted.first->second != p.second)
      conflict = true;
  }
  bool zero_parents(false);  // more than one version with index 0 is named
  std::set<Name> zeros;
  for (const auto& p : merged) {
    if (!p.second.id)
      ++roots;
    if (p.first.index == 0)
      zeros.insert(p.first);
    if (p.second.id && p.second.index == 0)
      zeros.insert(p.second);
  }
  zero_parents = zeros.size() > 1;
  bool impossible(conflict || roots > 1 || HasCircle(merged));
  bool fits(merged.size() <= theirs.max_versions &&
            mine.Tips().size() + theirs.Tips().size() <= theirs.max_branches);
  auto form(other.Serialise());
  auto before(Bytes(real.Serialise()));
  bool refused(false);
  try {
    real.ApplySerialised(form);
  } catch (const ms::maidsafe_error&) {
    refused = true;
  }
  std::vector<Name> names(other_universe.names);
  RequireSame(other, theirs, names);
  if (refused) {
    cs.label("refused");
    REQUIRE(impossible || !fits || zero_parents) << "refused a merge that fits";
    RequireSame(real, mine, names);
    REQUIRE(Bytes(real.Serialise()) == before) << "changed by a refused merge";
    return;
  }
  cs.label(fits ? "merged" : "merged beyond the limits");
  REQUIRE_EQ(real.max_versions(), theirs.max_versions);
  REQUIRE_EQ(real.max_branches(), theirs.max_branches);
  if (fits && !zero_parents) {
    REQUIRE(!impossible) << "merged contradicting trees";
    Model expected(theirs);
    expected.parent = merged;
    REQUIRE_EQ(View(real), View(expected));
  } else {
    // Whatever was evicted, what is there is right.
    REQUIRE(real.Get().size() <= theirs.max_branches);
    std::set<Name> seen;
    for (const auto& tip : real.Get()) {
      auto branch(Back(real.GetBranch(tip)));
      for (std::size_t i(0); i < branch.size(); ++i) {
        seen.insert(branch[i]);
        REQUIRE(merged.count(branch[i])) << branch[i] << " came from nowhere";
        if (i + 1 < branch.size() && !conflict)
          REQUIRE_EQ(merged[branch[i]], branch[i + 1]);
      }
    }
    REQUIRE(seen.size() <= theirs.max_versions);
  }
  // It can be used further: restored, it's the same tree.
  Sdv restored(real.Serialise());
  REQUIRE_EQ(View(restored), View(real));
  auto tips(real.Get());
  if (!tips.empty()) {
    auto tip(tips[src.index(tips.size())]);
    real.DeleteBranchUntilFork(tip);
    restored.DeleteBranchUntilFork(tip);
    REQUIRE_EQ(View(restored), View(real));
  }
}

// Applying a tree's own form, or an empty one, changes nothing.
PROPERTY(MergeWithItself, (pbt::Options{2})) {
  Universe universe(MakeUniverse(src));
  Model model;
  Limits(src, model);
  Sdv real(model.max_versions, model.max_branches);
  PutSome(src, cs, universe, real, model);
  if (model.parent.size() >= 2)
    cs.nontrivial();
  auto form(real.Serialise());
  real.ApplySerialised(form);
  RequireSame(real, model, universe.names);
  REQUIRE(Bytes(real.Serialise()) == Bytes(form));
  Sdv empty(model.max_versions, model.max_branches);
  empty.ApplySerialised(form);
  RequireSame(empty, model, universe.names);
  REQUIRE(Bytes(empty.Serialise()) == Bytes(form));
}

// The layout of the serialised form.
struct FormBranch {
  template <typename Archive>
  Archive& serialize(Archive& archive) {
    return archive(absent_parent, names);
  }
  boost::optional<VersionName> absent_parent;
  std::vector<VersionName> names;
};
struct Form {
  template <typename Archive>
  Archive& serialize(Archive& archive) {
    return archive(max_versions, max_branches, branches);
  }
  std::uint32_t max_versions = 0, max_branches = 0;
  std::vector<FormBranch> branches;
};

void ChangeForm(pbt::Src& src, pbt::Case& cs, const Universe& universe, Form& form) {
  std::size_t times(1 + src.draw(3));
  for (std::size_t i(0); i < times; ++i) {
    FormBranch* branch(form.branches.empty() ? nullptr
                                             : &form.branches[src.index(form.branches.size())]);
    switch (src.draw(8)) {
      case 0:
        cs.note() << " limits";
        (src.boolean() ? form.max_versions : form.max_branches) =
            static_cast<std::uint32_t>(src.draw(5));
        break;
      case 1:
        if (branch) {
          cs.note() << " no names";
          branch->names.clear();
        }
        break;
      case 2:
        if (branch) {
          cs.note() << " extra name";
          branch->names.insert(branch->names.begin() + src.index(branch->names.size() + 1),
                               Real(src.pick(universe.names)));
        }
        break;
      case 3:
        if (branch && !branch->names.empty()) {
          cs.note() << " child count";
          auto& name(branch->names[src.boolean() ? branch->names.size() - 1
                                                 : src.index(branch->names.size())]);
          if (src.boolean())
            name.forking_child_count = static_cast<std::uint32_t>(
                src.chance(1, 4) ? src.u64() : src.draw(4));
          else
            name.forking_child_count = boost::none;
        }
        break;
      case 4:
        if (branch) {
          cs.note() << " parent";
          if (branch->absent_parent && src.boolean())
            branch->absent_parent = boost::none;
          else
            branch->absent_parent = Real(src.pick(universe.names));
        }
        break;
      case 5:
        if (branch) {
          cs.note() << " branch twice";
          FormBranch copy(*branch);
          form.branches.push_back(copy);
        }
        break;
      case 6:
        if (branch) {
          cs.note() << " branch gone";
          form.branches.erase(form.branches.begin() + (branch - form.branches.data()));
        }
        break;
      default:
        if (branch && !branch->names.empty()) {
          cs.note() << " other name";
          branch->names[src.index(branch->names.size())] = Real(src.pick(universe.names));
        }
    }
  }
}

// Passes over a branch and those which continue it.
void SkipBranch(const Form& form, std::size_t& at) {
  REQUIRE(at < form.branches.size()) << "a branch is missing";
  const auto& names(form.branches[at++].names);
  REQUIRE(!names.empty()) << "an empty branch";
  auto children(names.back().forking_child_count);
  for (std::uint32_t i(0); children && i < *children; ++i)
    SkipBranch(form, at);
}

PROPERTY(CorruptedForms, (pbt::Options{6})) {
  Universe universe(MakeUniverse(src));
  Model model;
  Limits(src, model);
  Sdv original(model.max_versions, model.max_branches);
  PutSome(src, cs, universe, original, model);
  std::vector<unsigned char> bytes(Bytes(original.Serialise()));
  cs.note() << "|";
  cs.nontrivial();
  unsigned way(static_cast<unsigned>(src.draw(8)));
  if (way < 4) {
    Form form;
    try {
      form = ms::Parse<Form>(bytes);
    } catch (const std::exception&) {
      throw pbt::Discard();
    }
    ChangeForm(src, cs, universe, form);
    bytes = ms::Serialise(form);
  } else if (way == 4) {
    bytes.resize(src.index(bytes.size() + 1));
    cs.note() << " cut to " << bytes.size();
  } else if (way < 7) {
    std::size_t flips(1 + src.draw(3));
    for (std::size_t i(0); i < flips; ++i) {
      std::size_t at(src.index(bytes.size()));
      bytes[at] = static_cast<unsigned char>(src.boolean() ? src.draw(4) : src.draw(256));
      cs.note() << " byte " << at;
    }
  } else {
    bytes = src.vec(src.size(300));
    cs.note() << " random";
  }
  if (bytes.empty())
    throw pbt::Discard();
  std::string before(View(original));
  try {
    Sdv::serialised_type form{ms::NonEmptyString(bytes)};
    Sdv parsed(form);
    cs.label("accepted");
    REQUIRE(parsed.max_versions() >= 1 && parsed.max_branches() >= 1);
    REQUIRE(parsed.Get().size() <= parsed.max_branches());
    std::set<VersionName> seen;
    for (const auto& tip : parsed.Get()) {
      for (const auto& v : parsed.GetBranch(tip))
        seen.insert(v);
    }
    REQUIRE(seen.size() <= parsed.max_versions());
    auto again(parsed.Serialise());
    Sdv reparsed(again);
    REQUIRE_EQ(View(reparsed), View(parsed));
    // Only one version, which is the root, can have no parent.
    auto layout(ms::Parse<Form>(Bytes(again)));
    std::size_t roots(0);
    for (std::size_t at(0); at < layout.branches.size();) {
      roots += !layout.branches[at].absent_parent;
      SkipBranch(layout, at);
    }
    REQUIRE(roots <= 1) << roots << " versions without a parent";
    REQUIRE(Bytes(reparsed.Serialise()) == Bytes(again));
    parsed.clear();
    REQUIRE(parsed.Get().empty());
  } catch (const ms::maidsafe_error&) {
    cs.label("rejected");
  }
  // Applying it is refused, or done.
  try {
    original.ApplySerialised(Sdv::serialised_type(ms::NonEmptyString(bytes)));
  } catch (const ms::maidsafe_error&) {
    REQUIRE_EQ(View(original), before) << "changed by a refused form";
  }
  View(original);
}

}  // unnamed namespace
