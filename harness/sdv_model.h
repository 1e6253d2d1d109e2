// A model of StructuredDataVersions, after its documentation: a set of versions with the parent
// each was declared with, and which of the versions without a present parent is the root.
#ifndef VERIF_HARNESS_SDV_MODEL_H_
#define VERIF_HARNESS_SDV_MODEL_H_

#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

#include "maidsafe/common/data_types/structured_data_versions.h"

namespace sdv {

using Sdv = maidsafe::StructuredDataVersions;
using VersionName = Sdv::VersionName;

// Index and one byte which stands for the id; id 0 is uninitialised.
struct Name {
  std::uint64_t index;
  unsigned char id;
  bool operator<(const Name& o) const { return std::tie(index, id) < std::tie(o.index, o.id); }
  bool operator==(const Name& o) const { return index == o.index && id == o.id; }
  bool operator!=(const Name& o) const { return !(*this == o); }
};

inline Name None() { return Name{static_cast<std::uint64_t>(-1), 0}; }

inline VersionName Real(const Name& n) {
  if (!n.id)
    return VersionName();
  return VersionName(n.index, maidsafe::Identity(std::vector<unsigned char>(64, n.id)));
}

inline Name Back(const VersionName& v) {
  if (!v.id.IsInitialised())
    return Name{v.index, 0};
  return Name{v.index, v.id.string().at(63)};
}

inline std::ostream& operator<<(std::ostream& out, const Name& n) {
  if (!n.id)
    return out << "none";
  return out << n.index << '-' << static_cast<char>(n.id);
}

enum class Result { kNothing, kEvicted, kInvalid, kLimit, kNoSuchElement, kOther };

struct Outcome {
  Result result;
  Name evicted;
  bool operator==(const Outcome& o) const {
    return result == o.result && (result != Result::kEvicted || evicted == o.evicted);
  }
};

inline std::ostream& operator<<(std::ostream& out, const Outcome& o) {
  switch (o.result) {
    case Result::kNothing:
      return out << "accepted";
    case Result::kEvicted:
      return out << "evicted " << o.evicted;
    case Result::kInvalid:
      return out << "invalid_argument";
    case Result::kLimit:
      return out << "cannot_exceed_limit";
    case Result::kNoSuchElement:
      return out << "no_such_element";
    default:
      return out << "another error";
  }
}

struct Model {
  std::uint32_t max_versions, max_branches;
  std::map<Name, Name> parent;  // as declared
  Name root = None();

  bool Has(const Name& n) const { return parent.count(n) != 0; }
  std::set<Name> Children(const Name& n) const {
    std::set<Name> result;
    for (const auto& p : parent) {
      if (p.second == n)
        result.insert(p.first);
    }
    return result;
  }
  std::vector<Name> Tips() const {  // from highest to lowest
    std::vector<Name> result;
    for (const auto& p : parent) {
      if (Children(p.first).empty())
        result.push_back(p.first);
    }
    std::reverse(result.begin(), result.end());
    return result;
  }
  std::vector<Name> Branch(Name n) const {
    std::vector<Name> result;
    while (Has(n)) {
      result.push_back(n);
      n = parent.at(n);
    }
    return result;
  }
  Name Start(const Name& n) const { return Branch(n).back(); }
  std::set<Name> Orphans() const {
    std::set<Name> result;
    for (const auto& p : parent) {
      if (!Has(p.second) && p.first != root)
        result.insert(p.first);
    }
    return result;
  }
  void NewRootFromOrphans() {
    auto orphans(Orphans());
    root = orphans.empty() ? None() : *orphans.begin();
  }

  // The outcomes allowed (usually one).  If 'apply' is given it's the outcome that happened.
  std::vector<Outcome> Put(const Name& old_name, const Name& new_name) {
    const Outcome invalid{Result::kInvalid, None()};
    if (!new_name.id || old_name == new_name)
      return {invalid};
    if (Has(new_name)) {
      if (parent.at(new_name) == old_name)
        return {Outcome{Result::kNothing, None()}};
      return {invalid};
    }
    bool is_root(!old_name.id || parent.empty() || new_name.index == 0);
    if (is_root && !parent.empty() && !parent.at(root).id)
      return {invalid};
    bool parent_present(!is_root && Has(old_name));
    if (parent_present && parent.at(Start(old_name)) == new_name)
      return {invalid};  // a circle
    if (!is_root && !parent_present && root.index == 0 && old_name.index == 0 &&
        root.id != old_name.id)
      return {invalid};  // implies another root
    auto joined(Children(new_name));
    bool joins_root(joined.count(root) != 0), evict(false);
    if (parent.size() == max_versions) {
      if (is_root || joins_root)
        return {Outcome{Result::kEvicted, new_name}};
      evict = true;
    }
    bool another_tip(joined.empty() && !(parent_present && Children(old_name).empty()));
    if (another_tip && Tips().size() == max_branches) {
      if (is_root)
        return {Outcome{Result::kEvicted, new_name}, Outcome{Result::kLimit, None()}};
      if (!Children(root).empty())
        return {Outcome{Result::kLimit, None()}};
      evict = true;
    }
    parent[new_name] = old_name;
    if (is_root)
      root = new_name;
    else if (joins_root)
      root = Start(new_name);
    if (!evict)
      return {Outcome{Result::kNothing, None()}};
    Name evicted(root);
    auto children(Children(root));
    parent.erase(root);
    if (children.empty())
      NewRootFromOrphans();
    else
      root = *children.begin();
    return {Outcome{Result::kEvicted, evicted}};
  }

  Outcome Delete(const Name& tip) {
    if (!Has(tip))
      return Outcome{Result::kNoSuchElement, None()};
    if (!Children(tip).empty())
      return Outcome{Result::kInvalid, None()};
    Name n(tip);
    for (;;) {
      Name up(parent.at(n));
      parent.erase(n);
      if (n == root)
        NewRootFromOrphans();
      if (!Has(up) || !Children(up).empty())
        break;
      n = up;
    }
    return Outcome{Result::kNothing, None()};
  }

  void Clear() {
    parent.clear();
    root = None();
  }
};

template <typename F>
Outcome Try(F f) {
  try {
    return f();
  } catch (const maidsafe::common_error& e) {
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::invalid_argument))
      return Outcome{Result::kInvalid, None()};
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::cannot_exceed_limit))
      return Outcome{Result::kLimit, None()};
    if (e.code() == maidsafe::make_error_code(maidsafe::CommonErrors::no_such_element))
      return Outcome{Result::kNoSuchElement, None()};
    return Outcome{Result::kOther, None()};
  }
}

inline Outcome RealPut(Sdv& real, const Name& old_name, const Name& new_name) {
  return Try([&] {
    auto evicted(real.Put(Real(old_name), Real(new_name)));
    if (evicted)
      return Outcome{Result::kEvicted, Back(*evicted)};
    return Outcome{Result::kNothing, None()};
  });
}

inline std::string Text(const std::vector<Name>& names) {
  std::ostringstream out;
  for (const auto& n : names)
    out << n << ' ';
  return out.str();
}

inline std::vector<Name> Back(const std::vector<VersionName>& vs) {
  std::vector<Name> result;
  for (const auto& v : vs)
    result.push_back(Back(v));
  return result;
}

// All that can be seen of the tree.
inline std::string View(const Sdv& real) {
  std::ostringstream out;
  out << real.max_versions() << '/' << real.max_branches() << ": ";
  for (const auto& tip : real.Get())
    out << '[' << Text(Back(real.GetBranch(tip))) << "] ";
  return out.str();
}

inline std::string View(const Model& model) {
  std::ostringstream out;
  out << model.max_versions << '/' << model.max_branches << ": ";
  for (const auto& tip : model.Tips())
    out << '[' << Text(model.Branch(tip)) << "] ";
  return out.str();
}

inline void RequireSame(const Sdv& real, const Model& model, const std::vector<Name>& names) {
  REQUIRE_EQ(View(real), View(model));
  REQUIRE(model.Tips().size() <= model.max_branches) << "branch limit exceeded";
  REQUIRE(model.parent.size() <= model.max_versions) << "version limit exceeded";
  for (const auto& n : names) {
    Outcome outcome(Try([&] {
      real.GetBranch(Real(n));
      return Outcome{Result::kNothing, None()};
    }));
    Result expected(!model.Has(n) ? Result::kNoSuchElement
                                  : model.Children(n).empty() ? Result::kNothing
                                                              : Result::kInvalid);
    REQUIRE_EQ(outcome, (Outcome{expected, None()})) << "reading branch " << n;
  }
}

// The versions of a case, each with the parent it usually declares.
struct Universe {
  std::vector<Name> names;
  std::map<Name, Name> parent;
};

inline Universe MakeUniverse(pbt::Src& src, bool one_root = false) {
  Universe universe;
  std::size_t count(2 + src.draw(9));
  bool index_is_depth(src.chance(2, 3));
  Name root{src.chance(3, 4) ? 0u : 1u, static_cast<unsigned char>('a' + src.draw(26))};
  universe.names.push_back(root);
  universe.parent[root] = None();
  if (!one_root && src.chance(1, 5)) {  // another root
    Name other{root.index, static_cast<unsigned char>('a' + src.draw(26))};
    if (other != root) {
      universe.names.push_back(other);
      universe.parent[other] = None();
    }
  }
  bool bushy(src.chance(1, 4));
  for (std::size_t i(1); i < count; ++i) {
    Name up(bushy && src.chance(3, 4)
                ? universe.names[std::min<std::size_t>(1, universe.names.size() - 1)]
                : universe.names[src.boolean() ? universe.names.size() - 1
                                               : src.index(universe.names.size())]);
    Name name{index_is_depth ? up.index + 1 : 1 + src.draw(4),
              static_cast<unsigned char>('a' + src.draw(26))};
    if (universe.parent.count(name))
      continue;
    universe.names.push_back(name);
    universe.parent[name] = up;
  }
  return universe;
}

// The next insertion: usually one that fits the universe.
inline std::pair<Name, Name> NextPut(pbt::Src& src, const Universe& universe, const Model& model) {
  Name name(src.pick(universe.names));
  if (model.Has(name) && src.chance(3, 4))
    name = src.pick(universe.names);
  Name up(universe.parent.at(name));
  if (src.chance(1, 7)) {
    up = src.chance(1, 4) ? None() : src.pick(universe.names);
    // A version with index 0 must have no parent, unless it's refused anyway.
    if (name.index == 0 && up.id && !(model.Has(name) || (model.root.id &&
                                                          !model.parent.at(model.root).id)))
      up = None();
  }
  if (src.chance(1, 25)) {
    // Perhaps a circle: the missing parent of what there is, declared to come after it.
    std::vector<Name> members;
    for (const auto& member : model.parent) {
      auto start(model.Start(member.first));
      if (model.parent.at(start).id && model.parent.at(start).index != 0)
        members.push_back(member.first);
    }
    if (!members.empty()) {
      up = src.pick(members);
      name = model.parent.at(model.Start(up));
    }
  } else if (name.index != 0 && src.chance(1, 25)) {
    // Perhaps another root is implied.
    up = Name{0, static_cast<unsigned char>('a' + src.draw(26))};
  }
  if (src.chance(1, 40))
    name = None();
  return std::make_pair(up, name);
}

}  // namespace sdv

#endif  // VERIF_HARNESS_SDV_MODEL_H_
