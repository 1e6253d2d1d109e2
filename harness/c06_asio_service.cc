// C06: worker-thread services, for both networking libraries.
#include "pbt.h"

#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

#include "maidsafe/common/asio_service.h"
#include "perturb.h"

namespace ms = maidsafe;

namespace {

struct World {
  std::mutex mutex;
  std::set<std::thread::id> threads, posters;
  std::vector<int> runs;
  std::atomic<int> running{0}, most{0};
  std::atomic<bool> stopped{false}, late{false}, refused_wrongly{false}, not_refused{false};

  explicit World(std::size_t tasks) : runs(tasks, 0) {}
  void Begin(std::size_t task) {
    int now(++running);
    int before(most);
    while (now > before && !most.compare_exchange_weak(before, now)) {
    }
    if (stopped)
      late = true;
    std::lock_guard<std::mutex> lock(mutex);
    threads.insert(std::this_thread::get_id());
    ++runs[task];
  }
  void End() { --running; }
};

struct Task {
  unsigned micros = 0;
  std::size_t nested = 0;  // index of a further task + 1
  bool tries_to_stop = false;
};

template <typename Service>
void Run(pbt::Src& src, pbt::Case& cs) {
  std::size_t workers(1 + src.draw(5));
  std::size_t posters(1 + src.draw(3));
  std::size_t count(src.size(20));
  std::vector<Task> tasks(count);
  std::vector<std::size_t> poster(count, 0);  // posters + 1: posted by another task
  for (std::size_t i(0); i < count; ++i) {
    tasks[i].micros = src.chance(1, 3) ? static_cast<unsigned>(src.draw(150)) : 0;
    tasks[i].tries_to_stop = src.chance(1, 8);
    poster[i] = src.index(posters);
    if (i > 0 && src.chance(1, 4) && !tasks[i - 1].nested) {
      tasks[i - 1].nested = i + 1;
      poster[i] = posters + 1;
    }
  }
  // How it is stopped.
  std::size_t stoppers(src.draw(4));  // 0: by the destructor only
  bool rendezvous(src.chance(1, 3));
  bool again(src.boolean()), post_after(src.boolean());
  unsigned one_in(src.boolean() ? static_cast<unsigned>(2 + src.draw(10)) : 0);
  std::uint64_t delays(src.draw(1 << 20));
  cs.note() << workers << " workers, " << count << " tasks from " << posters << " posters, "
            << stoppers << " stoppers" << (rendezvous ? ", rendezvous" : "")
            << (again ? ", again" : "") << (post_after ? ", post after" : "") << ", delays 1/"
            << one_in;
  if (count > 1)
    cs.nontrivial();
  perturb::Set(one_in, delays);
  World world(count + 1);
  std::size_t met(0);
  std::mutex meet_mutex;
  std::condition_variable meet;
  {
    auto service(std::make_unique<ms::IoService<Service>>(workers));
    REQUIRE_EQ(service->ThreadCount(), workers);
    auto* raw(service.get());
    std::function<void(std::size_t)> run([&](std::size_t i) {
      world.Begin(i);
      if (tasks[i].micros)
        perturb::SleepMicros(tasks[i].micros);
      if (tasks[i].tries_to_stop) {
        // Refused, whether or not someone else is stopping the service meanwhile.
        try {
          raw->Stop();
          world.not_refused = true;
        } catch (const ms::maidsafe_error& e) {
          if (e.code() != ms::make_error_code(ms::CommonErrors::cannot_invoke_from_this_thread))
            world.refused_wrongly = true;
        }
      }
      if (tasks[i].nested) {
        std::size_t next(tasks[i].nested - 1);
        raw->service().post([&run, next] { run(next); });
      }
      world.End();
    });
    if (rendezvous) {
      // Only done when as many tasks as there are workers run at the same time.
      for (std::size_t i(0); i < workers; ++i) {
        raw->service().post([&] {
          std::unique_lock<std::mutex> lock(meet_mutex);
          if (++met == workers)
            meet.notify_all();
          meet.wait(lock, [&] { return met >= workers; });
        });
      }
    }
    std::vector<std::thread> threads;
    for (std::size_t p(0); p < posters; ++p) {
      threads.emplace_back([&, p] {
        {
          std::lock_guard<std::mutex> lock(world.mutex);
          world.posters.insert(std::this_thread::get_id());
        }
        for (std::size_t i(0); i < count; ++i)
          if (poster[i] == p)
            raw->service().post([&run, i] { run(i); });
      });
    }
    for (auto& thread : threads)
      thread.join();
    threads.clear();
    // All is posted: now stop.
    if (stoppers > 1) {
      for (std::size_t s(1); s < stoppers; ++s)
        threads.emplace_back([&] { raw->Stop(); });
    }
    if (stoppers > 0) {
      raw->Stop();
      world.stopped = true;
      REQUIRE_EQ(raw->ThreadCount(), 0u);
      REQUIRE(world.running == 0) << "stopped with a task running";
    }
    for (auto& thread : threads)
      thread.join();
    if (stoppers > 0 && again)
      raw->Stop();
    if (stoppers > 0 && post_after) {
      raw->service().post([&] { world.Begin(count); });
      perturb::SleepMicros(300);
      REQUIRE(!world.late) << "a task ran after the service was stopped";
    }
    service.reset();
    world.stopped = true;
  }
  perturb::Set(0, 0);
  std::lock_guard<std::mutex> lock(world.mutex);
  REQUIRE(!world.late) << "a task ran after the service was stopped";
  REQUIRE(!world.not_refused) << "a worker was allowed to stop its own service";
  REQUIRE(!world.refused_wrongly) << "wrong error";
  REQUIRE(static_cast<std::size_t>(world.most) <= workers) << "more tasks at a time than workers";
  REQUIRE(world.threads.size() <= workers) << "ran on more threads than workers";
  REQUIRE(!world.threads.count(std::this_thread::get_id()));
  for (std::size_t i(0); i < count; ++i)
    REQUIRE_EQ(world.runs[i], 1) << "runs of task " << i;
}

}  // namespace

PROPERTY(Asio, (pbt::Options{1, 1, true})) { Run<asio::io_service>(src, cs); }

PROPERTY(BoostAsio, (pbt::Options{1, 1, true})) { Run<boost::asio::io_service>(src, cs); }

// A worker may stop the service of others, which is as complete as when anyone else does.
PROPERTY(StoppedByAnother, (pbt::Options{1, 2, true})) {
  std::size_t workers(1 + src.draw(3)), others(1 + src.draw(3)), count(src.size(12));
  std::size_t chain(src.draw(4));  // tasks posted by the last one
  bool nested(src.boolean()), same_kind(src.boolean());
  unsigned one_in(src.boolean() ? static_cast<unsigned>(2 + src.draw(10)) : 0);
  cs.note() << workers << " workers, " << others << " of the other service, " << count
            << " tasks, " << chain << " in a chain" << (nested ? ", posted by a task" : "")
            << (same_kind ? "" : ", of another kind");
  perturb::Set(one_in, src.draw(1 << 20));
  cs.nontrivial();
  std::atomic<std::size_t> runs(0);
  std::atomic<bool> finished(false), refused(false), own_allowed(false);
  std::size_t left(1), seen(0), expected(count + (count ? chain : 0));
  auto stop_by([&](auto& stopper) {
    ms::AsioService stopped(others);
    std::function<void(std::size_t)> link([&](std::size_t remaining) {
      ++runs;
      if (remaining)
        stopped.service().post([&link, remaining] { link(remaining - 1); });
    });
    for (std::size_t i(0); i < count; ++i)
      stopped.service().post([&, i] { link(i + 1 == count ? chain : 0); });
    std::mutex mutex;
    std::condition_variable changed;
    auto work([&] {
      try {
        stopped.Stop();
        left = stopped.ThreadCount();
        seen = runs;
      } catch (const std::exception&) {
        refused = true;
      }
      try {
        stopper.Stop();
        own_allowed = true;
      } catch (const ms::maidsafe_error&) {
      }
      std::lock_guard<std::mutex> lock(mutex);
      finished = true;
      changed.notify_all();
    });
    stopper.service().post([&] {
      if (nested)
        stopper.service().post(work);
      else
        work();
    });
    {
      std::unique_lock<std::mutex> lock(mutex);
      changed.wait(lock, [&] { return finished.load(); });
    }
    stopper.Stop();
  });
  if (same_kind) {
    ms::AsioService stopper(workers);
    stop_by(stopper);
  } else {
    ms::BoostAsioService stopper(workers);
    stop_by(stopper);
  }
  perturb::Set(0, 0);
  REQUIRE(!refused) << "a worker of another service was refused";
  REQUIRE(!own_allowed) << "a worker was allowed to stop its own service";
  REQUIRE_EQ(left, 0u);
  REQUIRE_EQ(seen, expected);
  REQUIRE_EQ(runs.load(), expected);
}

PROPERTY(NoThreads, pbt::Options{1, 1, false, 2}) {
  cs.note() << "zero threads";
  cs.nontrivial();
  try {
    if (src.draw(2)) {
      ms::AsioService service(0);
    } else {
      ms::BoostAsioService service(0);
    }
    REQUIRE(false) << "not refused";
  } catch (const ms::maidsafe_error& e) {
    REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::invalid_argument));
  }
}
