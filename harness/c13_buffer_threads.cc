// C13: the data buffer while its background thread, a writer and readers race.
#include "buffer_common.h"
#include "perturb.h"

using namespace buffer;

namespace {

struct Stored {
  std::size_t key, version, size;
  bool small;                  // whether it went to memory first
  bool gone = false;           // deleted or overwritten
  std::size_t gone_pops = 0;   // how many had been popped when that was complete
};

}  // namespace

// With a pop callback.  One writer, up to two readers; nothing is waited for until the end.
PROPERTY(Racing, (pbt::Options{2, 40, true})) {
  std::uint64_t memory(src.chance(1, 10) ? 0 : src.range(1, 120));
  std::uint64_t disk(memory + 1 + src.draw(200));
  std::size_t keys(1 + src.draw(6));
  int readers(static_cast<int>(src.draw(3)));
  std::string path(pbt::FreshPath("buffer"));
  struct Step {
    int op;
    std::size_t key, size;
    std::uint64_t mask;
    unsigned gap;
  };
  std::vector<Step> steps(1 + src.size(25));
  unsigned gap(src.boolean() ? static_cast<unsigned>(src.draw(200)) : 0);
  for (auto& step : steps) {
    step.op = static_cast<int>(src.weighted({10, 2, 1, 4}));
    step.key = src.index(keys);
    step.size = 1 + src.draw(src.chance(1, 4) ? disk : 1 + disk / 3);
    step.mask = step.op == 2 ? src.draw(64) : 0;
    step.gap = gap;
  }
  cs.note() << "memory " << memory << " disk " << disk << ' ' << readers << " readers: ";
  for (const auto& s : steps) {
    if (s.op == 0)
      cs.note() << "store k" << s.key << ":" << s.size << ' ';
    else if (s.op == 1)
      cs.note() << "delete k" << s.key << ' ';
    else if (s.op == 2)
      cs.note() << "delete-if " << s.mask << ' ';
    else
      cs.note() << "get k" << s.key << ' ';
  }
  if (steps.size() > 3)
    cs.nontrivial();
  perturb::Set(src.chance(3, 4) ? static_cast<unsigned>(2 + src.draw(6)) : 0, src.draw(1 << 20));

  Pops pops;
  std::vector<Stored> stored;
  std::map<std::size_t, std::size_t> latest;      // key -> index in 'stored', if live
  std::vector<std::atomic<std::size_t>> begun(8), dropped(8);  // versions, for the readers
  for (std::size_t k(0); k < 8; ++k)
    begun[k] = dropped[k] = 0;
  std::atomic<bool> stop(false);
  std::mutex trouble_mutex;
  std::string trouble;
  auto complain([&](const std::string& what) {
    std::lock_guard<std::mutex> lock(trouble_mutex);
    if (trouble.empty())
      trouble = what;
  });
  std::vector<std::size_t> sizes(1, 0);  // by version (from 1)
  for (const auto& s : steps) {
    if (s.op == 0)
      sizes.push_back(s.size);
  }
  std::unique_ptr<DataBuffer> real(new DataBuffer(ms::MemoryUsage(memory), ms::DiskUsage(disk),
                                                  pops.Functor(), path, true));
  std::vector<std::thread> threads;
  for (int r(0); r < readers; ++r) {
    threads.emplace_back([&, r] {
      for (std::size_t i(static_cast<std::size_t>(r)); !stop; ++i) {
        std::size_t k(i % keys);
        std::size_t low(dropped[k]);  // versions up to this one were deleted before
        std::string value;
        Read read(TryGet(*real, k, value));
        std::size_t high(begun[k]);
        if (read == Read::kOther) {
          complain("reading failed: " + value);
        } else if (read == Read::kValue) {
          bool known(false);
          for (std::size_t v(low + 1); v <= high && !known; ++v)
            known = (value == Value(k, v, sizes[v]));
          if (!known)
            complain("a reader got a value of k" + std::to_string(k) + " that wasn't there");
        }
        std::this_thread::sleep_for(std::chrono::microseconds(50));
      }
    });
  }
  struct Join {
    ~Join() {
      stop = true;
      for (auto& thread : threads) {
        if (thread.joinable())
          thread.join();
      }
      perturb::Set(0, 0);
    }
    std::vector<std::thread>& threads;
    std::atomic<bool>& stop;
  } join{threads, stop};

  auto drop([&](std::size_t key) {
    auto itr(latest.find(key));
    if (itr == latest.end())
      return;
    stored[itr->second].gone = true;
    stored[itr->second].gone_pops = pops.Get().size();
    dropped[key] = stored[itr->second].version;
    latest.erase(itr);
  });
  auto popped([&](const Stored& s) {
    for (const auto& pop : pops.Get()) {
      if (pop.key == s.key && pop.value == Value(s.key, s.version, s.size))
        return true;
    }
    return false;
  });
  std::size_t version(0);
  for (const auto& step : steps) {
    if (step.gap)
      perturb::SleepMicros(step.gap);
    switch (step.op) {
      case 0: {
        ++version;
        begun[step.key] = version;
        real->Store(MakeKey(step.key),
                    Bounded(Value(step.key, version, step.size)));
        drop(step.key);
        latest[step.key] = stored.size();
        stored.push_back(Stored{step.key, version, step.size, step.size <= memory});
        break;
      }
      case 1: {
        auto itr(latest.find(step.key));
        try {
          real->Delete(MakeKey(step.key));
        } catch (const ms::common_error& e) {
          REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::no_such_element)) << e.what();
          REQUIRE(itr == latest.end() || popped(stored[itr->second]))
              << "a stored value couldn't be deleted";
        }
        drop(step.key);
        break;
      }
      case 2:
        real->Delete([&](const Key& k) {
          for (std::size_t i(0); i < 6; ++i) {
            if (MakeKey(i) == k)
              return (step.mask >> i & 1) != 0;
          }
          return false;
        });
        for (std::size_t i(0); i < 6; ++i) {
          if (step.mask >> i & 1)
            drop(i);
        }
        break;
      default: {
        std::string value;
        Read read(TryGet(*real, step.key, value));
        auto itr(latest.find(step.key));
        REQUIRE(read != Read::kOther) << "reading k" << step.key << ": " << value;
        if (itr == latest.end()) {
          REQUIRE(read == Read::kMissing) << "k" << step.key << " was deleted or never stored";
        } else {
          const Stored& s(stored[itr->second]);
          if (read == Read::kMissing)
            REQUIRE(popped(s)) << "k" << step.key << " is missing";
          else
            REQUIRE(value == Value(s.key, s.version, s.size)) << "k" << step.key << " is wrong";
        }
      }
    }
    std::uint64_t used(0);
    for (const auto& file : List(path))
      used += file.second;
    REQUIRE(used <= disk) << used << " bytes on disk";
  }
  // Everything that's live and wasn't popped reaches the disk.
  std::map<std::string, std::size_t> files, wanted;
  REQUIRE(Eventually([&] {
    wanted.clear();
    files = List(path);
    for (const auto& l : latest) {
      if (!popped(stored[l.second]))
        wanted[FileName(l.first)] = stored[l.second].size;
    }
    return files == wanted;
  })) << files.size() << " files rather than " << wanted.size();
  std::uint64_t used(0);
  for (const auto& file : wanted)
    used += file.second;
  for (const auto& l : latest) {
    const Stored& s(stored[l.second]);
    std::string value;
    Read read(TryGet(*real, s.key, value));
    if (wanted.count(FileName(s.key)))
      REQUIRE(read == Read::kValue && value == Value(s.key, s.version, s.size)) << "k" << s.key;
  }
  stop = true;
  for (auto& thread : threads)
    thread.join();
  {
    std::lock_guard<std::mutex> lock(trouble_mutex);
    REQUIRE(trouble.empty()) << trouble;
  }
  // Each popped item was stored, is popped once, before it was deleted and from the oldest on.
  auto all(pops.Get());
  if (!all.empty())
    cs.label("pop", all.size());
  std::vector<std::size_t> order;
  for (std::size_t p(0); p < all.size(); ++p) {
    std::size_t found(stored.size());
    for (std::size_t i(0); i < stored.size(); ++i) {
      const Stored& s(stored[i]);
      if (s.key == all[p].key && all[p].value == Value(s.key, s.version, s.size))
        found = i;
    }
    REQUIRE(found < stored.size()) << "popped a value nobody stored";
    REQUIRE(!stored[found].gone || p < stored[found].gone_pops)
        << "popped k" << all[p].key << " after it had been deleted";
    for (std::size_t before : order) {
      REQUIRE(before != found) << "popped twice";
      // 'before' was popped first though it's younger: only possible if it went straight to disk.
      REQUIRE(before < found || !stored[before].small)
          << "popped k" << stored[before].key << " before the older k" << stored[found].key;
    }
    order.push_back(found);
  }
  // Nothing older than a popped small item is left.
  for (std::size_t i : order) {
    if (!stored[i].small)
      continue;
    for (std::size_t j(0); j < i; ++j) {
      REQUIRE(stored[j].gone || std::find(order.begin(), order.end(), j) != order.end())
          << "k" << stored[j].key << " is older than the popped k" << stored[i].key;
    }
  }
  REQUIRE(real);
  real.reset();
  REQUIRE(!Exists(path)) << "the directory is still there";
  REQUIRE_EQ(pops.Get().size(), all.size()) << "popped at the end";
}
