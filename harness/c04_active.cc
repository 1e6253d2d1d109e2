// C04: the active object.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include "maidsafe/common/active.h"
#include "perturb.h"

namespace ms = maidsafe;

namespace {

struct Entry {
  int submitter, number;
};

// When a task was submitted: whatever was submitted after this call returned has to run later.
struct Stamp {
  int submitter, number;
  std::uint64_t before, after;
};

// What the tasks do to the world.  'order' is deliberately not protected: only one task may run at
// a time, so the thread sanitizer must find nothing.
struct World {
  std::atomic<int> running{0}, overlaps{0};
  std::vector<Entry> order;
  std::thread::id worker;
  bool several_workers = false;
  std::atomic<bool> destroyed{false}, destroying{false}, ran_late{false};
  std::atomic<std::uint64_t> ticks{0};
  std::mutex stamps_mutex;
  std::vector<Stamp> stamps;

  // Submits a task, noting when.
  template <typename Task>
  void Submit(ms::Active& active, int submitter, int number, Task task) {
    std::uint64_t before(++ticks);
    active.Send(std::move(task));
    std::uint64_t after(++ticks);
    std::lock_guard<std::mutex> lock(stamps_mutex);
    stamps.push_back(Stamp{submitter, number, before, after});
  }

  void Run(int submitter, int number, unsigned micros,
           std::function<void()> meanwhile = std::function<void()>()) {
    if (++running != 1)
      ++overlaps;
    if (destroyed)
      ran_late = true;
    if (order.empty())
      worker = std::this_thread::get_id();
    else if (worker != std::this_thread::get_id())
      several_workers = true;
    order.push_back(Entry{submitter, number});
    if (micros == 1)
      std::this_thread::yield();
    else if (micros)
      perturb::SleepMicros(micros);
    if (meanwhile)
      meanwhile();
    --running;
  }
};

struct Latch {
  std::mutex mutex;
  std::condition_variable condition;
  bool open = false;
  void Open() {
    std::lock_guard<std::mutex> lock(mutex);
    open = true;
    condition.notify_all();
  }
  void Wait() {
    std::unique_lock<std::mutex> lock(mutex);
    condition.wait(lock, [&] { return open; });
  }
};

struct Plan {
  std::vector<unsigned> micros, gaps;
  std::vector<int> nested;  // how many further tasks each submits
  std::vector<bool> deeper;  // whether the first of those submits yet another
};

}  // namespace

PROPERTY(Tasks, (pbt::Options{1, 1, true})) {
  int submitters(static_cast<int>(1 + src.draw(4)));
  bool blocked(src.boolean());      // the first task waits until everything is submitted
  bool from_here(src.chance(1, 3));  // this thread submits the first lot itself
  std::vector<Plan> plans(submitters);
  int total(0);
  for (auto& plan : plans) {
    std::size_t n(src.size(12));
    for (std::size_t i(0); i < n; ++i) {
      plan.micros.push_back(src.chance(1, 4) ? static_cast<unsigned>(src.draw(120)) : 0);
      plan.gaps.push_back(src.chance(1, 5) ? static_cast<unsigned>(src.draw(60)) : 0);
      plan.nested.push_back(src.chance(1, 4) ? static_cast<int>(1 + src.draw(3)) : 0);
      plan.deeper.push_back(src.chance(1, 3));
      ++total;
    }
  }
  unsigned one_in(src.boolean() ? static_cast<unsigned>(2 + src.draw(8)) : 0);
  perturb::Set(one_in, src.draw(1 << 20));
  cs.note() << submitters << " submitters, " << total << " tasks" << (blocked ? ", blocked" : "")
            << (from_here ? ", own" : "") << ", delays 1/" << one_in;
  if (total > 2 && submitters > 1)
    cs.nontrivial();
  World world;
  Latch latch;
  std::vector<std::vector<std::atomic<int>>> nested_sent;
  std::atomic<int> must_run(0), may_run(0);
  {
    auto active(std::make_unique<ms::Active>());
    ms::Active* raw(active.get());
    if (blocked) {
      ++must_run;
      world.Submit(*active, -1, 0, [&] {
        latch.Wait();
        world.Run(-1, 0, 0);
      });
    }
    auto submit([&](int me) {
      const Plan& plan(plans[me]);
      for (std::size_t i(0); i < plan.micros.size(); ++i) {
        if (plan.gaps[i])
          perturb::SleepMicros(plan.gaps[i]);
        int number(static_cast<int>(i));
        ++must_run;
        world.Submit(*active, me, number, [&, me, number, i, raw] {
          world.Run(me, number, plans[me].micros[i], [&, me, number, i, raw] {
            for (int j(0); j < plans[me].nested[i]; ++j) {
              int nested_number((number * 8 + j));
              // A nested task may itself submit one more.
              bool deeper(plans[me].deeper[i] && j == 0);
              world.Submit(*raw, 100 + me, nested_number, [&, me, nested_number, deeper, raw] {
                world.Run(100 + me, nested_number, 0, [&, me, nested_number, deeper, raw] {
                  if (!deeper)
                    return;
                  world.Submit(*raw, 200 + me, nested_number,
                               [&, me, nested_number] { world.Run(200 + me, nested_number, 0); });
                  ++(world.destroying ? may_run : must_run);
                });
              });
              // Submitted before destruction began, or perhaps not.
              ++(world.destroying ? may_run : must_run);
            }
          });
        });
      }
    });
    std::vector<std::thread> threads;
    for (int i(from_here ? 1 : 0); i < submitters; ++i)
      threads.emplace_back([&, i] { submit(i); });
    if (from_here)
      submit(0);
    for (auto& thread : threads)
      thread.join();
    latch.Open();
    world.destroying = true;
    active.reset();
    world.destroyed = true;
  }
  perturb::Set(0, 0);
  int ran(static_cast<int>(world.order.size()));
  REQUIRE(world.overlaps == 0) << "tasks ran at the same time";
  REQUIRE(!world.several_workers) << "tasks ran on several threads";
  REQUIRE(world.order.empty() || world.worker != std::this_thread::get_id());
  REQUIRE(ran >= must_run) << ran << " tasks ran, of " << must_run << " that had to";
  REQUIRE(ran <= must_run + may_run) << ran << " tasks ran, of at most " << must_run + may_run;
  // Each submitter's tasks ran once each, in order.
  std::vector<int> next(submitters, 0);
  std::vector<int> last_nested(submitters, -1);
  std::vector<std::vector<bool>> outer_ran(submitters);
  int blockers(0);
  for (const auto& entry : world.order) {
    if (entry.submitter < 0) {
      ++blockers;
      REQUIRE(&entry == &world.order.front()) << "the first task did not run first";
    } else if (entry.submitter < 100) {
      REQUIRE_EQ(entry.number, next[entry.submitter]) << "order of submitter " << entry.submitter;
      ++next[entry.submitter];
    } else if (entry.submitter >= 200) {
      REQUIRE(entry.number <= last_nested[entry.submitter - 200])
          << "a task ran before the nested task submitting it";
    } else {
      int me(entry.submitter - 100);
      REQUIRE(entry.number > last_nested[me]) << "nested tasks of submitter " << me;
      REQUIRE(entry.number / 8 < next[me]) << "a nested task ran before the task submitting it";
      last_nested[me] = entry.number;
    }
  }
  REQUIRE_EQ(blockers, blocked ? 1 : 0);
  for (int i(0); i < submitters; ++i)
    REQUIRE_EQ(next[i], static_cast<int>(plans[i].micros.size())) << "tasks of submitter " << i;
  // Whatever was submitted after the submission of something else had returned ran after it.
  std::map<std::pair<int, int>, const Stamp*> stamps;
  for (const auto& stamp : world.stamps)
    stamps[std::make_pair(stamp.submitter, stamp.number)] = &stamp;
  std::uint64_t latest_before(0);
  for (const auto& entry : world.order) {
    const Stamp* stamp(stamps.at(std::make_pair(entry.submitter, entry.number)));
    REQUIRE(stamp->after > latest_before)
        << "task " << entry.number << " of submitter " << entry.submitter
        << " ran after a task which was submitted later";
    latest_before = std::max(latest_before, stamp->before);
  }
  if (src.chance(1, 40)) {
    perturb::SleepMicros(500);
    REQUIRE(!world.ran_late);
    REQUIRE_EQ(static_cast<int>(world.order.size()), ran) << "a task ran after destruction";
  }
}

// Made and destroyed at once, many times over, with few tasks.
PROPERTY(ShortLives, (pbt::Options{1, 1, true})) {
  unsigned one_in(static_cast<unsigned>(src.draw(6)));
  perturb::Set(one_in, src.draw(1 << 20));
  int tasks(static_cast<int>(src.draw(4)));
  unsigned gap(src.boolean() ? static_cast<unsigned>(src.draw(80)) : 0);
  cs.note() << tasks << " tasks, delays 1/" << one_in << ", gap " << gap;
  if (tasks)
    cs.nontrivial();
  int ran(0);
  {
    ms::Active active;
    if (gap)
      perturb::SleepMicros(gap);
    for (int i(0); i < tasks; ++i)
      active.Send([&ran, i] { ran = ran * 10 + i + 1; });
  }
  int expected(0);
  for (int i(0); i < tasks; ++i)
    expected = expected * 10 + i + 1;
  perturb::Set(0, 0);
  REQUIRE_EQ(ran, expected);
}

// What a task holds is let go of once it has run, and at the latest with the active object.
PROPERTY(Released, (pbt::Options{1, 2, true})) {
  int tasks(static_cast<int>(1 + src.draw(6)));
  auto token(std::make_shared<int>(0));
  cs.note() << tasks << " tasks";
  cs.nontrivial();
  int started(0);
  {
    ms::Active active;
    for (int i(0); i < tasks; ++i)
      active.Send([token, &started] { ++started; });
  }
  REQUIRE_EQ(started, tasks);
  REQUIRE_EQ(token.use_count(), 1);
}
