// C05: the thread-safe queue.
#include "pbt.h"

#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <thread>

#include "maidsafe/common/safe_queue.h"
#include "perturb.h"

// One thread: against a deque.
PROPERTY(Model) {
  SafeQueue<std::unique_ptr<std::uint64_t>> queue;
  std::deque<std::uint64_t> model;
  std::size_t steps(src.size(60));
  std::uint64_t next(0);
  std::size_t pops(0);
  unsigned push_weight(static_cast<unsigned>(1 + src.draw(8)));
  for (std::size_t i(0); i < steps; ++i) {
    switch (src.weighted({push_weight, 3, 2, 1})) {
      case 0:
        cs.note() << "push ";
        queue.Push(std::unique_ptr<std::uint64_t>(new std::uint64_t(next)));
        model.push_back(next++);
        break;
      case 1: {
        cs.note() << "try ";
        std::uint64_t* before(new std::uint64_t(999999));
        std::unique_ptr<std::uint64_t> target(before);
        bool popped(queue.TryPop(target));
        REQUIRE_EQ(popped, !model.empty());
        if (popped) {
          REQUIRE(target);
          REQUIRE_EQ(*target, model.front());
          model.pop_front();
          ++pops;
        } else {
          REQUIRE(target.get() == before && *target == 999999) << "target touched";
        }
        break;
      }
      case 2:
        if (!model.empty()) {
          cs.note() << "wait ";
          std::unique_ptr<std::uint64_t> target;
          queue.WaitAndPop(target);
          REQUIRE(target);
          REQUIRE_EQ(*target, model.front());
          model.pop_front();
          ++pops;
        }
        break;
      default:
        if (src.chance(1, 20)) {  // many
          std::size_t count(src.chance(1, 20) ? 65400 + src.draw(300) : 200 + src.draw(500));
          cs.note() << "push " << count << ' ';
          for (; count != 0; --count) {
            queue.Push(std::unique_ptr<std::uint64_t>(new std::uint64_t(next)));
            model.push_back(next++);
          }
          cs.label("many");
        }
        break;
    }
    REQUIRE_EQ(queue.Size(), model.size());
    REQUIRE_EQ(queue.Empty(), model.empty());
  }
  while (!model.empty() && steps % 4 == 0) {
    std::unique_ptr<std::uint64_t> target;
    REQUIRE(queue.TryPop(target) && target) << "with " << model.size() << " left";
    REQUIRE_EQ(*target, model.front());
    model.pop_front();
    REQUIRE_EQ(queue.Size(), model.size());
  }
  if (pops > 1)
    cs.nontrivial();
}

// Several producers and consumers.
PROPERTY(Threads, (pbt::Options{1, 20, true})) {
  struct Item {
    int producer = -1, number = -1;
    std::shared_ptr<int> load;  // makes unprotected copies visible to the thread sanitizer
  };
  // When an operation was begun and was done.  Relaxed, so as not to order the threads.
  struct Span {
    int begun = 0, done = 0;
  };
  struct Look {
    Span span;
    char what;
    std::size_t size;
  };
  int producers(static_cast<int>(1 + src.draw(3))), consumers(static_cast<int>(1 + src.draw(4)));
  std::vector<int> counts;
  int total(0);
  for (int i(0); i < producers; ++i) {
    counts.push_back(static_cast<int>(src.size(25)));
    total += counts.back();
  }
  // Each consumer waits for a given number of items, or keeps trying; together they take all.
  std::vector<int> quota(consumers, 0), style(consumers);
  for (int i(0); i < total; ++i)
    ++quota[src.index(consumers)];
  for (auto& s : style)
    s = static_cast<int>(src.draw(3));
  unsigned one_in(src.boolean() ? static_cast<unsigned>(2 + src.draw(10)) : 0);
  unsigned gap(static_cast<unsigned>(src.draw(3) ? 0 : 1 + src.draw(60)));
  bool late(src.boolean());
  cs.note() << producers << " producers of " << total << " items, " << consumers
            << " consumers, delays 1/" << one_in;
  if (total > 2 && producers + consumers > 2)
    cs.nontrivial();
  perturb::Set(one_in, src.draw(1 << 20));
  SafeQueue<Item> queue;
  std::vector<std::vector<Item>> taken(consumers);
  std::atomic<int> clock(0);
  auto now([&] { return clock.fetch_add(1, std::memory_order_relaxed); });
  std::vector<std::vector<Span>> pushed(producers), popped(consumers);
  std::vector<std::vector<Look>> looks(consumers);
  std::vector<std::thread> threads;
  auto produce([&](int me) {
    for (int i(0); i < counts[me]; ++i) {
      Item item;
      item.producer = me;
      item.number = i;
      item.load = std::make_shared<int>(i);
      Span span;
      span.begun = now();
      queue.Push(item);
      span.done = now();
      pushed[me].push_back(span);
      if (gap)
        perturb::SleepMicros(gap);
    }
  });
  if (late) {
    for (int i(0); i < producers; ++i)
      threads.emplace_back([&, i] { produce(i); });
  }
  for (int i(0); i < consumers; ++i) {
    threads.emplace_back([&, i] {
      while (static_cast<int>(taken[i].size()) < quota[i]) {
        Item item;
        Span span;
        span.begun = now();
        bool got(true);
        if (style[i] == 0 || (style[i] == 1 && taken[i].size() % 2))
          queue.WaitAndPop(item);
        else
          got = queue.TryPop(item);
        span.done = now();
        auto look([&](Span when, char what, std::size_t size) {
          if (looks[i].size() < 150)
            looks[i].push_back(Look{when, what, size});
        });
        if (got) {
          taken[i].push_back(item);
          popped[i].push_back(span);
        } else {
          look(span, 'n', 0);
          std::this_thread::yield();
        }
        if (taken[i].size() % 3 == 1) {
          span.begun = now();
          std::size_t size(queue.Size());
          span.done = now();
          look(span, 's', size);
        } else if (taken[i].size() % 3 == 2) {
          span.begun = now();
          bool empty(queue.Empty());
          span.done = now();
          look(span, 'e', empty ? 0 : 1);
        }
      }
    });
  }
  if (!late) {
    for (int i(0); i < producers; ++i)
      threads.emplace_back([&, i] { produce(i); });
  }
  for (auto& thread : threads)
    thread.join();
  perturb::Set(0, 0);
  REQUIRE(queue.Empty());
  REQUIRE_EQ(queue.Size(), 0u);
  Item item;
  REQUIRE(!queue.TryPop(item));
  std::map<std::pair<int, int>, int> seen;
  for (const auto& list : taken) {
    std::vector<int> last(producers, -1);
    for (const auto& one : list) {
      REQUIRE(one.producer >= 0 && one.producer < producers) << "an item nobody pushed";
      REQUIRE(one.number >= 0 && one.number < counts[one.producer]);
      REQUIRE(one.load && *one.load == one.number);
      REQUIRE(one.number > last[one.producer]) << "out of order";
      last[one.producer] = one.number;
      REQUIRE_EQ(++seen[std::make_pair(one.producer, one.number)], 1) << "taken twice";
    }
  }
  REQUIRE_EQ(seen.size(), static_cast<std::size_t>(total));
  // What was pushed earlier, by whomever, leaves earlier.
  std::vector<std::pair<Span, Span>> items;
  for (int i(0); i < consumers; ++i) {
    for (std::size_t j(0); j < taken[i].size(); ++j)
      items.emplace_back(pushed[taken[i][j].producer][taken[i][j].number], popped[i][j]);
  }
  for (const auto& earlier : items) {
    REQUIRE(earlier.second.done > earlier.first.begun) << "taken before it was pushed";
    for (const auto& later : items) {
      REQUIRE(earlier.first.done > later.first.begun || later.second.done > earlier.second.begun)
          << "pushed in [" << earlier.first.begun << ", " << earlier.first.done << "] and ["
          << later.first.begun << ", " << later.first.done << "], but taken in ["
          << earlier.second.begun << ", " << earlier.second.done << "] and ["
          << later.second.begun << ", " << later.second.done << "]";
    }
  }
  // What was seen in between can have been.
  for (const auto& list : looks) {
    for (const auto& look : list) {
      int least(0), most(0);
      for (const auto& item : items) {
        least += (item.first.done < look.span.begun) - (item.second.begun < look.span.done);
        most += (item.first.begun < look.span.done) - (item.second.done < look.span.begun);
      }
      int size(static_cast<int>(look.size));
      if (look.what == 's')
        REQUIRE(size >= least && size <= most) << "size " << size << " of " << least << ".." << most;
      else
        REQUIRE(size ? most > 0 : least <= 0) << (look.what == 'e' ? "Empty" : "TryPop") << " with "
                                              << least << ".." << most << " items";
    }
  }
}
