// C14: the LRU cache, with a clock that the harness moves.
#include "pbt.h"

#include <chrono>
#include <memory>
#include <string>
#include <vector>

#include "maidsafe/common/containers/lru_cache.h"

namespace ms = maidsafe;
using Nanos = std::chrono::steady_clock::duration;

namespace {
std::int64_t g_now(1000000000000LL);
}

// The library's (and only its) view of the time.
extern "C" std::chrono::steady_clock::time_point
__wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  return std::chrono::steady_clock::time_point(Nanos(g_now));
}
extern "C" std::chrono::system_clock::time_point
__wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  return std::chrono::system_clock::time_point(std::chrono::nanoseconds(g_now));
}

namespace {

template <typename Key>
Key MakeKey(std::size_t i);
template <>
int MakeKey<int>(std::size_t i) {
  return static_cast<int>(i * 7919 % 101) - 50;
}
template <>
std::string MakeKey<std::string>(std::size_t i) {
  return std::string(i % 3 * 20, 'k') + std::to_string(i);
}

struct Entry {
  std::size_t key;
  int value;
  std::int64_t added;
};

// Most recently used at the end.
struct Model {
  std::size_t capacity;
  std::int64_t ttl;
  std::vector<Entry> entries;
  std::uint64_t evicted = 0, expired = 0;

  std::size_t Find(std::size_t key) const {
    std::size_t i(0);
    while (i < entries.size() && entries[i].key != key)
      ++i;
    return i;
  }
  void Add(std::size_t key, int value) {
    if (capacity == 0 || Find(key) != entries.size())
      return;
    if (entries.size() == capacity) {
      entries.erase(entries.begin());
      ++evicted;
    }
    while (ttl != 0 && !entries.empty() && entries.front().added + ttl < g_now) {
      entries.erase(entries.begin());
      ++expired;
    }
    entries.push_back(Entry{key, value, g_now});
  }
};

template <typename Cache>
std::unique_ptr<Cache> Make(pbt::Src& src, Model& model, pbt::Case& cs) {
  static const std::vector<std::int64_t> kTtls = {1, 2, 10, 1000, 1000000000LL,
                                                  3600000000000LL * 24 * 365};
  std::unique_ptr<Cache> cache;
  switch (src.draw(4)) {
    case 0:
      model.capacity = src.size(40);
      model.ttl = 0;
      cache.reset(new Cache(model.capacity));
      break;
    case 1:
      model.capacity = static_cast<std::size_t>(-1);
      model.ttl = src.pick(kTtls);
      cache.reset(new Cache(Nanos(model.ttl)));
      break;
    case 2:
      model.capacity = src.size(12);
      model.ttl = 0;
      cache.reset(new Cache(model.capacity, Nanos(0)));
      break;
    default:
      model.capacity = 1 + src.draw(8);
      model.ttl = src.pick(kTtls);
      cache.reset(new Cache(model.capacity, Nanos(model.ttl)));
  }
  cs.note() << "capacity " << static_cast<std::int64_t>(model.capacity) << " ttl " << model.ttl
            << ": ";
  return cache;
}

void PassTime(pbt::Src& src, const Model& model, pbt::Case& cs) {
  std::int64_t step(0);
  std::int64_t ttl(model.ttl ? model.ttl : 5);
  switch (src.draw(4)) {
    case 0:
      step = 1;
      break;
    case 1:
      step = ttl / 2;
      break;
    case 2:
      step = ttl;
      break;
    default:
      step = ttl + 1;
  }
  g_now += step;
  cs.note() << "t+" << step << ' ';
}

template <typename Key>
void RunMap(pbt::Src& src, pbt::Case& cs) {
  Model model;
  auto cache(Make<ms::LruCache<Key, std::string>>(src, model, cs));
  std::size_t keys(2 + src.draw(model.capacity < 40 ? model.capacity + 6 : 20));
  std::size_t steps(src.size(80));
  int next(0);
  auto text([](int v) { return "value " + std::to_string(v); });
  auto check_all([&](const char* when) {
    REQUIRE_EQ(cache->size(), model.entries.size()) << when;
    REQUIRE(cache->size() <= model.capacity) << when;
    for (std::size_t k(0); k < keys; ++k) {
      REQUIRE_EQ(cache->Check(MakeKey<Key>(k)), model.Find(k) != model.entries.size())
          << when << " key " << k;
    }
  });
  std::size_t gets(0);
  for (std::size_t i(0); i < steps; ++i) {
    std::size_t key(src.index(keys)), at(model.Find(key));
    switch (src.weighted({5, 4, 1, 1, 2, 1})) {
      case 0:
        ++next;
        cs.note() << "add" << key << '=' << next << ' ';
        cache->Add(MakeKey<Key>(key), text(next));
        model.Add(key, next);
        break;
      case 1: {
        cs.note() << "get" << key << ' ';
        auto got(cache->Get(MakeKey<Key>(key)));
        REQUIRE_EQ(static_cast<bool>(got), at != model.entries.size()) << "get " << key;
        if (got) {
          REQUIRE_EQ(*got, text(model.entries[at].value));
          Entry entry(model.entries[at]);
          model.entries.erase(model.entries.begin() + at);
          model.entries.push_back(entry);
          ++gets;
        } else {
          REQUIRE(got.error().code() == ms::make_error_code(ms::CommonErrors::no_such_element));
        }
        break;
      }
      case 2:
        cs.note() << "check" << key << ' ';
        REQUIRE_EQ(cache->Check(MakeKey<Key>(key)), at != model.entries.size());
        break;
      case 3:
        cs.note() << "delete" << key << ' ';
        cache->Delete(MakeKey<Key>(key));
        if (at != model.entries.size())
          model.entries.erase(model.entries.begin() + at);
        break;
      case 4:
        PassTime(src, model, cs);
        break;
      default:
        check_all("midway");
    }
    REQUIRE_EQ(cache->size(), model.entries.size());
  }
  check_all("at the end");
  // The values, which also shows the order of the entries by evicting them.
  for (std::size_t k(0); k < keys; ++k) {
    auto got(cache->Get(MakeKey<Key>(k)));
    std::size_t at(model.Find(k));
    REQUIRE_EQ(static_cast<bool>(got), at != model.entries.size());
    if (got)
      REQUIRE_EQ(*got, text(model.entries[at].value));
  }
  if (model.evicted + model.expired >= 1 && gets >= 1)
    cs.nontrivial();
  cs.label("evicted", model.evicted);
  cs.label("expired", model.expired);
}

PROPERTY(MapFollowsModel, (pbt::Options{3})) {
  if (src.boolean())
    RunMap<int>(src, cs);
  else
    RunMap<std::string>(src, cs);
}

template <typename Key>
void RunFilter(pbt::Src& src, pbt::Case& cs) {
  Model model;
  auto cache(Make<ms::LruCache<Key, void>>(src, model, cs));
  std::size_t keys(2 + src.draw(model.capacity < 40 ? model.capacity + 6 : 20));
  std::size_t steps(src.size(80));
  for (std::size_t i(0); i < steps; ++i) {
    std::size_t key(src.index(keys));
    switch (src.weighted({5, 2, 2})) {
      case 0:
        cs.note() << "add" << key << ' ';
        cache->Add(MakeKey<Key>(key));
        model.Add(key, 0);
        break;
      case 1:
        cs.note() << "check" << key << ' ';
        REQUIRE_EQ(cache->Check(MakeKey<Key>(key)), model.Find(key) != model.entries.size());
        break;
      default:
        PassTime(src, model, cs);
    }
    REQUIRE_EQ(cache->size(), model.entries.size());
  }
  for (std::size_t k(0); k < keys; ++k)
    REQUIRE_EQ(cache->Check(MakeKey<Key>(k)), model.Find(k) != model.entries.size()) << k;
  if (model.evicted + model.expired >= 2)
    cs.nontrivial();
}

PROPERTY(FilterFollowsModel, (pbt::Options{2})) {
  if (src.boolean())
    RunFilter<int>(src, cs);
  else
    RunFilter<std::string>(src, cs);
}

}  // unnamed namespace
