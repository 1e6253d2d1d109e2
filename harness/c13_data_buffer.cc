// C13: the data buffer, one step at a time: after every operation the harness waits for the
// background thread to have done what it must, and compares the files, the popped items and what
// can be read with a model.
#include "buffer_common.h"

#include <sys/syscall.h>

#include <cstdlib>
#include <fstream>
#include <set>

#include "boost/filesystem.hpp"

#include "perturb.h"

using namespace buffer;

namespace {

struct Item {
  std::size_t key, version, size;
  std::string Content() const { return Value(key, version, size); }
};

std::uint64_t Total(const std::vector<Item>& items) {
  std::uint64_t total(0);
  for (const auto& item : items)
    total += item.size;
  return total;
}

std::vector<Item>::iterator Find(std::vector<Item>& items, std::size_t key) {
  return std::find_if(items.begin(), items.end(), [key](const Item& i) { return i.key == key; });
}

bool Remove(std::vector<Item>& items, std::size_t key) {
  auto itr(Find(items, key));
  if (itr == items.end())
    return false;
  items.erase(itr);
  return true;
}

std::string Show(const std::map<std::string, std::size_t>& files) {
  std::string result("{");
  for (const auto& f : files)
    result += f.first.substr(0, 2) + ".." + f.first.substr(f.first.rfind('_')) + ":" +
              std::to_string(f.second) + " ";
  return result + "}";
}

std::map<std::string, std::size_t> Files(const std::vector<Item>& items) {
  std::map<std::string, std::size_t> result;
  for (const auto& item : items)
    result[FileName(item.key)] = item.size;
  return result;
}

struct Limits {
  std::uint64_t memory, disk;
};

Limits MakeLimits(pbt::Src& src) {
  Limits limits;
  limits.memory = src.chance(1, 8) ? 0 : src.range(1, 200);
  limits.disk = limits.memory + 1 + (src.chance(1, 6) ? 0 : src.draw(400));
  return limits;
}

std::size_t MakeSize(pbt::Src& src, const Limits& limits) {
  std::uint64_t size(1);
  switch (src.draw(6)) {
    case 0:
      size = limits.memory;
      break;
    case 1:
      size = limits.memory + 1;
      break;
    case 2:
      size = limits.disk - (src.chance(1, 2) ? 0 : src.draw(limits.disk));
      break;
    default:
      size = 1 + src.draw(1 + limits.disk / 3);
  }
  return static_cast<std::size_t>(std::max<std::uint64_t>(1, std::min(size, limits.disk)));
}

std::unique_ptr<DataBuffer> Make(const Limits& limits, DataBuffer::PopFunctor functor,
                                 const std::string& path, bool remove) {
  return std::unique_ptr<DataBuffer>(new DataBuffer(ms::MemoryUsage(limits.memory),
                                                    ms::DiskUsage(limits.disk), functor, path,
                                                    remove));
}

std::set<std::string> Threads() {
  std::set<std::string> result;
  for (boost::filesystem::directory_iterator itr("/proc/self/task"), end; itr != end; ++itr)
    result.insert(itr->path().string());
  return result;
}

// Whether all threads but 'others' have for a while been waiting for another one to do something.
bool Idle(const std::set<std::string>& others) {
  for (int i(0); i < 5; ++i) {
    for (const auto& thread : Threads()) {
      if (others.count(thread))
        continue;
      std::string number;
      std::ifstream(thread + "/syscall") >> number;
      if (number != std::to_string(SYS_futex))
        return false;
    }
    perturb::SleepMicros(200);
  }
  return true;
}

struct Restore {
  ~Restore() { perturb::Set(0, 0); }
};

}  // namespace

// With a pop callback: everything ends up on disk, and the oldest items make way.
PROPERTY(Popping, (pbt::Options{3, 12, true})) {
  Limits limits(MakeLimits(src));
  std::size_t keys(1 + src.draw(8)), version(0);
  bool remove(src.boolean());
  std::string path(pbt::FreshPath("buffer"));
  Pops pops;
  std::vector<Item> live, popped;  // from oldest to newest
  cs.note() << "memory " << limits.memory << " disk " << limits.disk << ": ";
  Restore restore;
  perturb::Set(src.boolean() ? 6 : 0, src.draw(1 << 16));
  auto real(Make(limits, pops.Functor(), path, remove));
  std::size_t steps(src.size(24)), checked_pops(0);
  bool stopped(false);
  for (std::size_t step(0); step < steps && !stopped; ++step) {
    std::size_t key(src.index(keys));
    switch (src.weighted({10, 3, 2, 1, 1})) {
      case 0: {
        if (src.chance(1, 60)) {
          cs.note() << "store-too-large ";
          std::string large(limits.disk + 1 + src.draw(5), 'x');
          REQUIRE(Throws(ms::CommonErrors::cannot_exceed_limit, [&] {
            real->Store(MakeKey(key), Bounded(large));
          })) << "a value larger than the disk limit was stored";
          stopped = true;
          break;
        }
        Item item{key, version++, MakeSize(src, limits)};
        cs.note() << "store k" << key << ":" << item.size << ' ';
        real->Store(MakeKey(key), Bounded(item.Content()));
        Remove(live, key);
        Remove(popped, key);
        while (Total(live) + item.size > limits.disk) {
          popped.push_back(live.front());
          live.erase(live.begin());
          ++checked_pops;
          std::vector<Pop> all;
          REQUIRE(Eventually([&] {
            all = pops.Get();
            return all.size() >= checked_pops;
          })) << "the oldest item was not popped";
          const Pop& pop(all[checked_pops - 1]);
          REQUIRE_EQ(pop.key, popped.back().key) << "popped instead of the oldest";
          REQUIRE(pop.value == popped.back().Content()) << "popped with the wrong value";
          cs.label("pop");
        }
        live.push_back(item);
        break;
      }
      case 1: {
        cs.note() << "delete k" << key << ' ';
        bool was_live(Find(live, key) != live.end());
        try {
          real->Delete(MakeKey(key));
        } catch (const ms::common_error& e) {
          REQUIRE(!was_live) << "a stored value couldn't be deleted: " << e.what();
          REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::no_such_element)) << e.what();
        }
        Remove(live, key);
        Remove(popped, key);
        break;
      }
      case 2: {
        std::uint64_t mask(src.draw(256));
        cs.note() << "delete-if " << mask << ' ';
        real->Delete([&](const Key& k) {
          for (std::size_t i(0); i < 8; ++i) {
            if (MakeKey(i) == k)
              return (mask >> i & 1) != 0;
          }
          return false;
        });
        for (std::size_t i(0); i < 8; ++i) {
          if (mask >> i & 1) {
            Remove(live, i);
            Remove(popped, i);
          }
        }
        break;
      }
      case 3: {
        std::uint64_t memory(src.draw(limits.disk + 20));
        cs.note() << "memory=" << memory << ' ';
        if (memory > limits.disk) {
          REQUIRE(Throws(ms::CommonErrors::invalid_argument,
                         [&] { real->SetMaxMemoryUsage(ms::MemoryUsage(memory)); }));
        } else {
          real->SetMaxMemoryUsage(ms::MemoryUsage(memory));
          limits.memory = memory;
        }
        break;
      }
      default: {
        std::uint64_t disk(1 + src.draw(400));
        cs.note() << "disk=" << disk << ' ';
        if (limits.memory > disk) {
          REQUIRE(Throws(ms::CommonErrors::invalid_argument,
                         [&] { real->SetMaxDiskUsage(ms::DiskUsage(disk)); }));
        } else {
          real->SetMaxDiskUsage(ms::DiskUsage(disk));
          limits.disk = disk;
        }
      }
    }
    if (stopped)
      break;
    {  // let the background thread finish and look at the directory
      auto wanted(Files(live));
      std::map<std::string, std::size_t> files;
      REQUIRE(Eventually([&] { return (files = List(path)) == wanted; }))
          << "files " << Show(files) << " rather than " << Show(wanted);
    }
    for (std::size_t k(0); k < keys; ++k) {
      std::string value;
      Read read(TryGet(*real, k, value));
      REQUIRE(read != Read::kOther) << "reading k" << k << ": " << value;
      auto itr(Find(live, k));
      if (itr != live.end()) {
        REQUIRE(read == Read::kValue) << "k" << k << " is missing";
        REQUIRE(value == itr->Content()) << "k" << k << " has the wrong value";
      } else if ((itr = Find(popped, k)) != popped.end()) {
        REQUIRE(read == Read::kMissing || value == itr->Content()) << "popped k" << k;
      } else {
        REQUIRE(read == Read::kMissing) << "k" << k << " was deleted or never stored";
      }
    }
  }
  if (!stopped) {
    REQUIRE_EQ(pops.Get().size(), checked_pops) << "items popped without need";
    if (checked_pops || live.size() > 1)
      cs.nontrivial();
  }
  real.reset();
  REQUIRE_EQ(Exists(path), !remove) << "the directory after destruction";
  REQUIRE_EQ(pops.Get().size(), stopped ? pops.Get().size() : checked_pops) << "popped at the end";
}

// Without one: storing waits until deletions make space.
PROPERTY(Waiting, (pbt::Options{3, 12, true})) {
  Limits limits(MakeLimits(src));
  std::size_t keys(2 + src.draw(7)), version(0);
  std::string path(pbt::FreshPath("buffer"));
  std::vector<Item> disk, pending;
  cs.note() << "memory " << limits.memory << " disk " << limits.disk << ": ";
  Restore restore;
  perturb::Set(src.boolean() ? 6 : 0, src.draw(1 << 16));
  const auto others(Threads());
  auto real(Make(limits, DataBuffer::PopFunctor(), path, true));
  auto settle([&] {
    while (!pending.empty() && Total(disk) + pending.front().size <= limits.disk) {
      disk.push_back(pending.front());
      pending.erase(pending.begin());
    }
  });
  auto check([&] {
    auto wanted(Files(disk));
    std::map<std::string, std::size_t> files;
    REQUIRE(Eventually([&] { return (files = List(path)) == wanted; }))
        << "files " << Show(files) << " rather than " << Show(wanted);
    for (std::size_t k(0); k < keys; ++k) {
      std::string value;
      Read read(TryGet(*real, k, value));
      REQUIRE(read != Read::kOther) << "reading k" << k << ": " << value;
      auto itr(Find(disk, k));
      if (itr == disk.end()) {
        itr = Find(pending, k);
        if (itr == pending.end()) {
          REQUIRE(read == Read::kMissing) << "k" << k << " was deleted or never stored";
          continue;
        }
      }
      REQUIRE(read == Read::kValue) << "k" << k << " is missing";
      REQUIRE(value == itr->Content()) << "k" << k << " has the wrong value";
    }
  });
  auto remove([&](std::size_t key) {
    bool was_live(Find(disk, key) != disk.end() || Find(pending, key) != pending.end());
    try {
      real->Delete(MakeKey(key));
    } catch (const ms::common_error& e) {
      REQUIRE(!was_live) << "a stored value couldn't be deleted: " << e.what();
      REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::no_such_element)) << e.what();
    }
    Remove(disk, key);
    Remove(pending, key);
    settle();
  });
  std::size_t steps(src.size(24));
  for (std::size_t step(0); step < steps; ++step) {
    std::size_t key(src.index(keys));
    switch (src.weighted({10, 3, 1, 1, 1})) {
      case 0: {
        Item item{key, version++, MakeSize(src, limits)};
        cs.note() << "store k" << key << ":" << item.size << ' ';
        // What storing it leaves, if it doesn't have to wait.
        auto old(Find(disk, key));
        std::uint64_t old_size(old == disk.end() ? 0 : old->size);
        Remove(disk, key);
        Remove(pending, key);
        auto head_blocked([&] {
          return pending.empty() || Total(disk) + pending.front().size > limits.disk;
        });
        bool waits;
        if (item.size <= limits.memory) {
          settle();
          waits = Total(pending) + item.size > limits.memory;
        } else {
          waits = Total(disk) + item.size > limits.disk ||
                  (!head_blocked() && Total(disk) + Total(pending) + item.size > limits.disk);
          settle();
        }
        if (!waits) {
          real->Store(MakeKey(key), Bounded(item.Content()));
          if (item.size <= limits.memory)
            pending.push_back(item);
          else
            disk.push_back(item);
          settle();
        } else {
          cs.label("wait");
          cs.note() << "(waits) ";
          std::atomic<bool> done(false), failed(false);
          std::thread thread([&] {
            try {
              real->Store(MakeKey(key), Bounded(item.Content()));
            } catch (const std::exception&) {
              failed = true;
            }
            done = true;
          });
          if (src.boolean())
            perturb::SleepMicros(static_cast<unsigned>(src.draw(300)));
          std::vector<Item> others(disk);
          others.insert(others.end(), pending.begin(), pending.end());
          src.shuffle(others);
          while (Total(others) + item.size > limits.disk) {
            cs.note() << "delete k" << others.back().key << ' ';
            try {
              real->Delete(MakeKey(others.back().key));
            } catch (const std::exception& e) {
              bool ignored(Eventually([&] { return done.load(); }));
              static_cast<void>(ignored);
              thread.detach();
              REQUIRE(false) << "a stored value couldn't be deleted: " << e.what();
            }
            others.pop_back();
            std::uint64_t used(0);
            for (const auto& file : List(path))
              used += file.second;
            std::uint64_t left(old_size);  // the limit may have been lowered below what's on disk
            for (const auto& other : others) {
              if (Find(disk, other.key) != disk.end())
                left += other.size;
            }
            if (used > limits.disk && used > left) {
              thread.detach();
              REQUIRE(false) << used << " bytes on disk";
            }
          }
          if (!Eventually([&] { return done.load(); })) {
            thread.detach();
            REQUIRE(false) << "still waiting although there is space";
          }
          thread.join();
          REQUIRE(!failed) << "storing failed after waiting";
          pending.clear();
          disk = others;
          disk.push_back(item);
        }
        break;
      }
      case 1:
        cs.note() << "delete k" << key << ' ';
        remove(key);
        break;
      case 2: {
        std::uint64_t mask(src.draw(256));
        cs.note() << "delete-if " << mask << ' ';
        real->Delete([&](const Key& k) {
          for (std::size_t i(0); i < 8; ++i) {
            if (MakeKey(i) == k)
              return (mask >> i & 1) != 0;
          }
          return false;
        });
        for (std::size_t i(0); i < 8; ++i) {
          if (mask >> i & 1) {
            Remove(disk, i);
            Remove(pending, i);
          }
        }
        settle();
        break;
      }
      case 3: {
        std::uint64_t memory(src.draw(limits.disk + 20));
        cs.note() << "memory=" << memory << ' ';
        if (memory > limits.disk) {
          REQUIRE(Throws(ms::CommonErrors::invalid_argument,
                         [&] { real->SetMaxMemoryUsage(ms::MemoryUsage(memory)); }));
        } else {
          real->SetMaxMemoryUsage(ms::MemoryUsage(memory));
          limits.memory = memory;
        }
        break;
      }
      default: {
        std::uint64_t max(1 + src.draw(400));
        // These would stop the buffer, as would the first one if it isn't waiting yet.
        bool waiting(!pending.empty() && pending[0].size > max && Eventually([&] {
          return Idle(others);
        }));
        if (waiting)
          cs.label("too small for what waits");
        for (std::size_t i(waiting ? 1 : 0); i < pending.size(); ++i)
          max = std::max<std::uint64_t>(max, pending[i].size);
        cs.note() << "disk=" << max << ' ';
        if (limits.memory > max) {
          REQUIRE(Throws(ms::CommonErrors::invalid_argument,
                         [&] { real->SetMaxDiskUsage(ms::DiskUsage(max)); }));
        } else {
          real->SetMaxDiskUsage(ms::DiskUsage(max));
          limits.disk = max;
          settle();
        }
      }
    }
    check();
  }
  if (disk.size() + pending.size() > 1)
    cs.nontrivial();
}

// Contradicting limits, a directory that can't be used, and whether the directory goes at the end.
PROPERTY(Construction, (pbt::Options{1, 12})) {
  std::uint64_t disk(src.draw(100)), memory(src.chance(1, 2) ? disk + 1 + src.draw(100)
                                                             : src.draw(disk + 1));
  if (src.chance(1, 8))
    memory = static_cast<std::uint64_t>(-1) - src.draw(3);
  std::string path(pbt::FreshPath("buffer"));
  std::size_t place(src.weighted({4, 2, 2, 2, 2}));
  const bool blocked(place == 1), there(place == 2 || place == 4), nested(place == 3),
      temporary(place == 4), remove(temporary || src.boolean());
  cs.note() << "memory " << memory << " disk " << disk << (blocked ? " a file in the way" : "")
            << (there ? " a folder there" : "") << (nested ? " two folders to make" : "")
            << (temporary ? " in the temporary folder" : "") << (remove ? " to be removed" : "");
  cs.nontrivial();
  pbt::Finally clean([&] {
    if (Exists(path)) {
      boost::system::error_code ec;
      boost::filesystem::remove_all(path, ec);
    }
    ::unsetenv("TMPDIR");
  });
  if (blocked) {
    FILE* file(std::fopen(path.c_str(), "w"));
    std::fclose(file);
  }
  const std::string other(path + "/other");
  if (there) {
    ::mkdir(path.c_str(), 0755);
    FILE* file(std::fopen(other.c_str(), "w"));
    std::fclose(file);
  }
  if (temporary)
    ::setenv("TMPDIR", path.c_str(), 1);
  const std::string root(nested ? path + "/deeper" : path);
  auto folders([&] {
    std::size_t found(0);
    for (boost::filesystem::directory_iterator itr(path), end; itr != end; ++itr)
      found += boost::filesystem::is_directory(itr->path());
    return found;
  });
  DataBuffer::PopFunctor functor;
  bool made(true);
  try {
    std::unique_ptr<DataBuffer> real(
        temporary ? new DataBuffer(ms::MemoryUsage(memory), ms::DiskUsage(disk), functor)
                  : new DataBuffer(ms::MemoryUsage(memory), ms::DiskUsage(disk), functor, root,
                                   remove));
    if (temporary)
      REQUIRE_EQ(folders(), 1u);
    REQUIRE(Exists(root));
    // One that is used, so that there is something in the folder.
    if (src.boolean() && disk) {
      Key key(MakeKey(1));
      std::string value(static_cast<std::size_t>(1 + src.draw(disk)), 'v');
      real->Store(key, ms::NonEmptyString(value));
      REQUIRE(real->Get(key) == ms::NonEmptyString(value));
      cs.label("used");
    }
  } catch (const ms::common_error& e) {
    made = false;
    if (memory > disk)
      REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::invalid_argument)) << e.what();
    else
      REQUIRE(blocked || memory == disk) << e.what();
  }
  if (memory > disk || blocked)
    REQUIRE(!made);
  if (temporary) {
    REQUIRE_EQ(folders(), 0u) << "its folder is still there";
    REQUIRE(Exists(other));
  } else if (!made) {
    REQUIRE_EQ(Exists(root), blocked || there);
  } else {
    REQUIRE_EQ(Exists(root), !remove) << (remove ? "still there" : "gone");
    if (there)
      REQUIRE_EQ(Exists(other), !remove);
  }
}

// When the disk fails, nothing which was accepted is denied or altered silently, nor does anyone
// wait for ever: what is asked for from then on is refused.
PROPERTY(DiskFails, (pbt::Options{1, 25, true})) {
  enum Kind { kDirect, kCopied, kPopped } kind(static_cast<Kind>(src.draw(3)));
  Limits limits;
  limits.memory = 1 + src.draw(60);
  limits.disk = 4 * limits.memory + 80 + src.draw(200);
  const bool with_functor(kind == kPopped || src.boolean()), remove(src.boolean());
  const unsigned one_in(src.boolean() ? static_cast<unsigned>(1 + src.draw(6)) : 0);
  const std::size_t readers(src.draw(3)), writers(src.draw(3));
  cs.note() << (kind == kDirect ? "direct" : kind == kCopied ? "copied" : "popped") << ", memory "
            << limits.memory << ", disk " << limits.disk << ", " << readers << " readers, " << writers << " writers, delays 1/"
            << one_in;
  cs.nontrivial();
  std::string path(pbt::FreshPath("buffer"));
  pbt::Finally clean([&] {
    boost::system::error_code ec;
    boost::filesystem::remove_all(path, ec);
  });
  Restore restore;
  {
    Pops pops;
    auto real(Make(limits, with_functor ? pops.Functor() : DataBuffer::PopFunctor(), path, remove));
    // Some which are stored before.
    std::map<std::string, std::size_t> expected;
    std::vector<std::string> values(8);
    for (std::size_t key(0), count(kind == kPopped ? 2 : src.draw(4)); key < count; ++key) {
      values[key] = Value(key, 1, 1 + src.draw(std::min<std::uint64_t>(limits.memory, 15)));
      real->Store(MakeKey(key), Bounded(values[key]));
      expected[FileName(key)] = values[key].size();
    }
    REQUIRE(Eventually([&] { return List(path) == expected; })) << "not copied to disk";
    const std::size_t failing(6);
    std::mutex mutex;
    std::string problem;
    auto complain([&](const std::string& text) {
      std::lock_guard<std::mutex> lock(mutex);
      problem = text;
    });
    std::vector<std::thread> threads;
    std::atomic<bool> stop(false);
    perturb::Set(one_in, src.draw(1 << 20));
    // Reads until it is refused.
    auto read([&](std::size_t key) {
      while (!stop) {
        std::string value;
        auto outcome(TryGet(*real, key, value));
        if (outcome == Read::kOther)
          return;
        if (outcome == Read::kValue && value != values[key])
          complain("a wrong value");
        if (outcome == Read::kMissing && !(key == failing || with_functor || values[key].empty()))
          complain("a value is missing");
        std::this_thread::yield();
      }
    });
    auto wrong([&](std::size_t key) {
      std::string value;
      return TryGet(*real, key, value) == Read::kValue && value != values[key];
    });
    // Stores until it is refused.
    auto write([&](std::size_t key) {
      for (std::size_t version(2); !stop; ++version) {
        try {
          real->Store(MakeKey(key), Bounded(Value(key, version, limits.memory)));
        } catch (const ms::common_error&) {
          return;
        }
      }
    });
    for (std::size_t i(0); i < writers; ++i)
      threads.emplace_back([&, i] { write(4 + i); });
    bool refused(false);
    if (kind != kPopped) {
      boost::filesystem::create_directories(path + '/' + FileName(failing) + "/in the way");
      values[failing] = Value(failing, 1, static_cast<std::size_t>(
          kind == kDirect ? src.range(limits.memory + 1, limits.memory + 20)
                          : src.range(1, limits.memory)));
      for (std::size_t i(0); i < readers; ++i)
        threads.emplace_back([&, i] { read(i ? 0 : failing); });
      try {
        real->Store(MakeKey(failing), Bounded(values[failing]));
        if (kind == kDirect)
          complain("stored though it can't have been");
      } catch (const ms::common_error& e) {
        refused = true;
      }
    } else {
      boost::filesystem::remove(path + '/' + FileName(0));
      values[0].clear();
      for (std::size_t i(0); i < readers; ++i)
        threads.emplace_back([&] { read(1); });
      try {
        for (std::size_t i(0); i <= limits.disk; ++i)
          real->Store(MakeKey(8 + i), Bounded(Value(8 + i, 1, 1 + limits.memory / 2)));
      } catch (const ms::common_error& e) {
        refused = true;
      }
      if (!refused)
        complain("stored though there was no space");
    }
    // Soon all is refused.
    if (!Eventually([&] {
          if (wrong(1))
            complain("a wrong value");
          try {
            real->Delete([](const Key&) { return false; });
            return false;
          } catch (const ms::common_error&) {
            return true;
          }
        }))
      complain("goes on");
    for (std::size_t i(0); i < 3; ++i) {
      std::string value;
      if (TryGet(*real, src.index(8), value) != Read::kOther)
        complain("reads");
      if (!Throws(ms::CommonErrors::filesystem_io_error,
                  [&] { real->Store(MakeKey(7), Bounded("value")); }))
        complain("stores");
      if (!Throws(ms::CommonErrors::filesystem_io_error,
                  [&] { real->Delete(MakeKey(src.index(8))); }))
        complain("deletes");
    }
    cs.label("refused", refused);
    stop = true;
    for (auto& thread : threads)
      thread.join();
    perturb::Set(0, 0);
    REQUIRE_EQ(problem, "");
  }
  REQUIRE_EQ(Exists(path), !remove);
}
