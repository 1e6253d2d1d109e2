// C25: database transactions and statements.  Link with --wrap for nanosleep and
// sqlite3_busy_timeout: waiting between attempts is replaced by a hook, so that exhausting every
// attempt is quick and "the lock becomes free during the n-th wait" is an input like any other.
#include "pbt.h"

#include <errno.h>
#include <signal.h>
#include <sqlite3.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "boost/filesystem/operations.hpp"

#include "maidsafe/common/error.h"
#include "maidsafe/common/sqlite3_wrapper.h"

namespace ms = maidsafe;
namespace sq = maidsafe::sqlite;
using Bytes = std::vector<unsigned char>;
using Content = std::map<std::string, Bytes>;

namespace {

std::function<void()> g_on_sleep;
std::atomic<bool> g_real_sleep(false);

}  // namespace

extern "C" {

int __real_nanosleep(const timespec* wanted, timespec* left);
int __wrap_nanosleep(const timespec* wanted, timespec* left) {
  if (g_real_sleep.load()) {
    timespec brief{0, 200000};
    return __real_nanosleep(&brief, left);
  }
  auto hook(g_on_sleep);  // may replace itself
  if (hook)
    hook();
  return 0;
}
int __real_clock_nanosleep(clockid_t clock, int flags, const timespec* wanted, timespec* left);
int __wrap_clock_nanosleep(clockid_t, int, const timespec* wanted, timespec* left) {
  return __wrap_nanosleep(wanted, left);
}
int __real_sqlite3_busy_timeout(sqlite3* database, int ms);
int __wrap_sqlite3_busy_timeout(sqlite3* database, int) {
  return __real_sqlite3_busy_timeout(database, g_real_sleep.load() ? 5 : 0);
}
}

namespace {

const char kCreate[] =
    "CREATE TABLE IF NOT EXISTS kv (key TEXT PRIMARY KEY NOT NULL, value BLOB NOT NULL)";

// An outcome: "" or the name of the error.
template <typename Fn>
std::string Outcome(const Fn& fn) {
  try {
    fn();
  } catch (const ms::maidsafe_error& error) {
    if (error.code() == ms::make_error_code(ms::CommonErrors::db_error))
      return "db_error";
    if (error.code() == ms::make_error_code(ms::CommonErrors::db_busy))
      return "db_busy";
    if (error.code() == ms::make_error_code(ms::CommonErrors::db_not_present))
      return "db_not_present";
    if (error.code() == ms::make_error_code(ms::CommonErrors::unable_to_handle_request))
      return "unable_to_handle_request";
    return "other: " + error.code().message();
  }
  return "";
}

// A transaction in memory that held something else before.
class Holder {
 public:
  explicit Holder(sq::Database& database) {
    std::memset(memory_, 0xff, sizeof memory_);
    transaction_ = new (memory_) sq::Transaction(database);
  }
  ~Holder() { transaction_->~Transaction(); }
  sq::Transaction* operator->() { return transaction_; }

 private:
  alignas(sq::Transaction) unsigned char memory_[sizeof(sq::Transaction)];
  sq::Transaction* transaction_;
};

void Create(sq::Database& database) {
  sq::Statement statement(database, kCreate);
  REQUIRE(statement.Step() == sq::StepResult::kSqliteDone);
}

Content ReadAll(sq::Database& database) {
  Content content;
  sq::Statement statement(database, "SELECT key, value FROM kv ORDER BY key");
  std::string last;
  while (statement.Step() == sq::StepResult::kSqliteRow) {
    std::string key(statement.ColumnText(0));
    REQUIRE(content.empty() || last < key) << "keys out of order";
    last = key;
    content[key] = statement.ColumnBlob(1);
  }
  return content;
}

std::string Describe(const Content& content) {
  std::string text("{");
  for (const auto& item : content)
    text += pbt::Hex(item.first, 12) + "=" + pbt::Hex(item.second, 12) + " ";
  return text + "}";
}

struct Change {
  enum Kind { kPut, kInsert, kUpdate, kErase } kind = kPut;
  std::string key;
  Bytes value;
};

Change DrawChange(pbt::Src& src, std::size_t max_value) {
  Change change;
  change.kind = static_cast<Change::Kind>(src.weighted({4, 3, 2, 2}));
  change.key = src.chance(1, 12) ? src.bytes(src.size(300)) : std::string(1, 'a' + src.draw(5));
  if (change.kind != Change::kErase)
    change.value = src.vec(src.size(max_value));
  return change;
}

const char* Sql(Change::Kind kind) {
  switch (kind) {
    case Change::kPut:
      return "INSERT OR REPLACE INTO kv (key, value) VALUES (?, ?)";
    case Change::kInsert:
      return "INSERT INTO kv (key, value) VALUES (?, ?)";
    case Change::kUpdate:
      return "UPDATE kv SET value = ?2 WHERE key = ?1";
    default:
      return "DELETE FROM kv WHERE key = ?";
  }
}

// What the change does to 'content', and the outcome expected.
std::string Model(const Change& change, Content& content) {
  switch (change.kind) {
    case Change::kPut:
      content[change.key] = change.value;
      break;
    case Change::kInsert:
      if (content.count(change.key))
        return "db_error";
      content[change.key] = change.value;
      break;
    case Change::kUpdate:
      if (content.count(change.key))
        content[change.key] = change.value;
      break;
    default:
      content.erase(change.key);
  }
  return "";
}

void Bind(sq::Statement& statement, const Change& change) {
  statement.BindText(1, change.key);
  if (change.kind != Change::kErase)
    statement.BindBlob(2, change.value);
}

std::string Apply(sq::Database& database, const Change& change) {
  return Outcome([&] {
    sq::Statement statement(database, Sql(change.kind));
    Bind(statement, change);
    REQUIRE(statement.Step() == sq::StepResult::kSqliteDone);
  });
}

std::string Text(const Change& change) {
  static const char* const kNames[] = {"put", "insert", "update", "erase"};
  return std::string(kNames[change.kind]) + "(" + pbt::Hex(change.key, 12) + "," +
         pbt::Hex(change.value, 12) + ") ";
}

struct Unwind {};

}  // namespace

PROPERTY(Histories, (pbt::Options{4, 12, false, 0})) {
  auto path(pbt::FreshPath("db"));
  std::unique_ptr<sq::Database> connections[2];
  for (auto& connection : connections)
    connection.reset(new sq::Database(path, sq::Mode::kReadWriteCreate));
  Create(*connections[0]);
  Content committed;
  std::size_t commits(0), rollbacks(0);
  auto check([&](const char* when) {
    for (auto& connection : connections) {
      Content found(ReadAll(*connection));
      REQUIRE(found == committed) << when << ": found " << Describe(found) << " instead of "
                                  << Describe(committed);
    }
  });
  std::size_t max_value(src.boolean() ? 40 : 9000);
  std::size_t steps(1 + src.size(14));
  for (std::size_t step(0); step < steps; ++step) {
    std::size_t which(src.draw(2));
    auto& mine(*connections[which]);
    auto& other(*connections[1 - which]);
    switch (src.weighted({10, 3, 2, 2, 2})) {
      case 0: {  // a transaction
        cs.note() << "begin" << which << ' ';
        Content pending(committed);
        bool commit(false);
        bool misuse_after(false);
        try {
          Holder transaction(mine);
          // Declared after the transaction: used by several changes and gone before it ends.
          std::map<int, std::unique_ptr<sq::Statement>> prepared;
          std::size_t changes(src.size(8));
          for (std::size_t i(0); i < changes; ++i) {
            switch (src.weighted({8, 4, 2, 1, 1, 1, 1})) {
              case 0: {
                auto change(DrawChange(src, max_value));
                cs.note() << Text(change);
                auto expected(Model(change, pending));
                REQUIRE_EQ(Apply(mine, change), expected);
                if (!expected.empty() && src.boolean())
                  throw Unwind();
                break;
              }
              case 1: {  // with a statement used before
                auto change(DrawChange(src, max_value));
                cs.note() << "re-" << Text(change);
                auto& statement(prepared[change.kind]);
                if (!statement)
                  statement.reset(new sq::Statement(mine, Sql(change.kind)));
                Bind(*statement, change);
                std::size_t times(1 + src.draw(2));
                bool failed(false);
                for (std::size_t n(0); n < times; ++n) {
                  auto expected(Model(change, pending));
                  REQUIRE_EQ(Outcome([&] {
                               REQUIRE(statement->Step() == sq::StepResult::kSqliteDone);
                             }),
                             expected);
                  if (!expected.empty()) {
                    failed = true;
                    break;
                  }
                  statement->Reset();
                }
                if (failed)  // may be reported once more by Reset
                  statement.reset();
                break;
              }
              case 2: {  // what each side sees
                Content found(ReadAll(mine));
                REQUIRE(found == pending) << "inside: found " << Describe(found) << " instead of "
                                          << Describe(pending);
                found = ReadAll(other);
                REQUIRE(found == committed) << "outside: found " << Describe(found)
                                            << " instead of " << Describe(committed);
                break;
              }
              case 3: {
                cs.note() << "nested ";
                auto& database(src.boolean() ? mine : other);
                REQUIRE_EQ(Outcome([&] { Holder nested(database); }),
                           "unable_to_handle_request");
                cs.label("second transaction refused");
                break;
              }
              case 4:
                cs.note() << "bad ";
                REQUIRE_EQ(Outcome([&] {
                             sq::Statement statement(mine, src.boolean() ? "SELEC" :
                                                     "SELECT * FROM missing");
                           }),
                           "db_error");
                break;
              case 5: {
                cs.note() << "outside-put ";
                REQUIRE_EQ(Apply(other, DrawChange(src, 10)), "db_error");
                break;
              }
              case 6:
                cs.note() << "checkpoint ";
                (src.boolean() ? mine : other).CheckPoint();
                break;
            }
          }
          switch (src.weighted({5, 2, 2})) {
            case 0:
              prepared.clear();
              transaction->Commit();
              commit = true;
              cs.note() << "commit ";
              // Seen by others from now on, not only when the object goes.
              REQUIRE(ReadAll(other) == pending) << "not visible after commit";
              misuse_after = src.chance(1, 6);
              if (misuse_after)
                REQUIRE_EQ(Outcome([&] { transaction->Commit(); }), "unable_to_handle_request");
              if (src.chance(1, 6))
                throw Unwind();
              break;
            case 1:
              cs.note() << "leave ";
              break;
            case 2:
              cs.note() << "throw ";
              throw Unwind();
          }
        } catch (const Unwind&) {
        }
        if (commit) {
          committed = pending;
          ++commits;
        } else {
          ++rollbacks;
        }
        break;
      }
      case 1: {
        auto change(DrawChange(src, max_value));
        cs.note() << "alone-" << Text(change);
        auto expected(Model(change, committed));
        REQUIRE_EQ(Apply(mine, change), expected);
        break;
      }
      case 2:
        cs.note() << "checkpoint ";
        mine.CheckPoint();
        break;
      case 3: {
        cs.note() << "reopen ";
        bool both(src.boolean());
        if (both)
          connections[1 - which].reset();
        connections[which].reset();
        connections[which].reset(new sq::Database(
            path, src.boolean() ? sq::Mode::kReadWriteCreate : sq::Mode::kReadWrite));
        if (both)
          connections[1 - which].reset(new sq::Database(path, sq::Mode::kReadWrite));
        break;
      }
      case 4: {  // another connection's transaction ends while this one waits to begin
        cs.note() << "wait ";
        auto change(DrawChange(src, max_value));
        std::unique_ptr<Holder> first(new Holder(other));
        Content pending(committed);
        auto expected(Model(change, pending));
        REQUIRE_EQ(Apply(other, change), expected);
        std::size_t waits(1 + src.draw(60));
        bool commit(src.boolean());
        g_on_sleep = [&] {
          if (waits && !--waits) {
            g_on_sleep = nullptr;
            if (commit) {
              (*first)->Commit();
              committed = pending;
            }
            first.reset();
          }
        };
        std::string outcome(Outcome([&] {
          Holder second(mine);
          g_on_sleep = nullptr;
          REQUIRE(!first) << "two transactions at once";
          Content found(ReadAll(mine));
          REQUIRE(found == committed) << "a transaction which waited sees " << Describe(found)
                                      << " instead of " << Describe(committed);
          auto mine_change(DrawChange(src, max_value));
          Content next(committed);
          auto expected_mine(Model(mine_change, next));
          REQUIRE_EQ(Apply(mine, mine_change), expected_mine);
          second->Commit();
          committed = next;
        }));
        g_on_sleep = nullptr;
        REQUIRE_EQ(outcome, "");
        cs.label("waited for another transaction");
        ++commits;
        break;
      }
    }
    check("after a step");
  }
  for (auto& connection : connections)
    connection.reset();
  sq::Database again(path, sq::Mode::kReadOnly);
  Content found(ReadAll(again));
  REQUIRE(found == committed) << "reopened: found " << Describe(found) << " instead of "
                              << Describe(committed);
  cs.label("transactions committed", commits);
  cs.label("transactions rolled back", rollbacks);
  if (commits && rollbacks)
    cs.nontrivial();
}

// Commits which the database refuses because of a constraint checked only then: nothing of such a
// transaction remains, unless what is wrong is put right before a further attempt.
PROPERTY(RefusedCommits, (pbt::Options{1, 12, false, 0})) {
  auto path(pbt::FreshPath("db"));
  std::unique_ptr<sq::Database> database(new sq::Database(path, sq::Mode::kReadWriteCreate));
  auto run([&](sq::Database& where, const std::string& query) {
    sq::Statement statement(where, query);
    while (statement.Step() == sq::StepResult::kSqliteRow) {
    }
  });
  run(*database, "CREATE TABLE parents (id INTEGER PRIMARY KEY)");
  run(*database,
      "CREATE TABLE children (id INTEGER PRIMARY KEY, parent INTEGER REFERENCES parents(id) "
      "DEFERRABLE INITIALLY DEFERRED)");
  run(*database, "PRAGMA foreign_keys = ON");
  struct Tables {
    std::set<int> parents;
    std::map<int, int> children;
    bool Sound() const {
      for (const auto& child : children)
        if (!parents.count(child.second))
          return false;
      return true;
    }
    bool operator==(const Tables& other) const {
      return parents == other.parents && children == other.children;
    }
  };
  auto read([](sq::Database& where) {
    Tables tables;
    sq::Statement parents(where, "SELECT id FROM parents");
    while (parents.Step() == sq::StepResult::kSqliteRow)
      tables.parents.insert(std::stoi(parents.ColumnText(0)));
    sq::Statement children(where, "SELECT id, parent FROM children");
    while (children.Step() == sq::StepResult::kSqliteRow)
      tables.children[std::stoi(children.ColumnText(0))] = std::stoi(children.ColumnText(1));
    return tables;
  });
  Tables committed;
  std::size_t commits(0), refused(0);
  std::size_t steps(1 + src.size(8));
  for (std::size_t step(0); step < steps; ++step) {
    Tables pending(committed);
    bool commit(false);
    cs.note() << "begin ";
    try {
      Holder transaction(*database);
      auto change([&] {
        int id(static_cast<int>(src.draw(4))), parent(static_cast<int>(src.draw(4)));
        switch (src.weighted({3, 1, 3, 1})) {
          case 0:
            cs.note() << "parent" << id << ' ';
            run(*database, "INSERT OR IGNORE INTO parents VALUES (" + std::to_string(id) + ")");
            pending.parents.insert(id);
            break;
          case 1:
            cs.note() << "no-parent" << id << ' ';
            run(*database, "DELETE FROM parents WHERE id = " + std::to_string(id));
            pending.parents.erase(id);
            break;
          case 2:
            cs.note() << "child" << id << "of" << parent << ' ';
            run(*database, "INSERT OR REPLACE INTO children VALUES (" + std::to_string(id) + ", " +
                               std::to_string(parent) + ")");
            pending.children[id] = parent;
            break;
          default:
            cs.note() << "no-child" << id << ' ';
            run(*database, "DELETE FROM children WHERE id = " + std::to_string(id));
            pending.children.erase(id);
        }
      });
      auto repair([&] {
        for (const auto& child : pending.children) {
          run(*database,
              "INSERT OR IGNORE INTO parents VALUES (" + std::to_string(child.second) + ")");
          pending.parents.insert(child.second);
        }
      });
      for (bool done(false); !done;) {
        for (std::size_t i(0), n(src.size(5)); i < n; ++i)
          change();
        bool sound(pending.Sound());
        int waits(sound || src.boolean() ? 0 : static_cast<int>(1 + src.draw(150)));
        if (waits)
          g_on_sleep = [&] {
            if (!--waits) {
              g_on_sleep = nullptr;
              repair();
            }
          };
        bool expected(sound || waits);
        cs.note() << (sound ? "commit " : waits ? "commit-repaired-meanwhile " : "bad-commit ");
        if (!sound)
          ++refused;
        std::string outcome(Outcome([&] { transaction->Commit(); }));
        g_on_sleep = nullptr;
        REQUIRE_EQ(outcome, expected ? "" : "unable_to_handle_request");
        if (expected) {
          commit = done = true;
          break;
        }
        cs.label("commit refused");
        REQUIRE(read(*database) == pending) << "content changed by a refused commit";
        switch (src.weighted({2, 2, 2, 1})) {
          case 0:
            cs.note() << "leave ";
            done = true;
            break;
          case 1:
            cs.note() << "throw ";
            throw Unwind();
          case 2:
            cs.note() << "repair ";
            repair();
            break;
          default:
            cs.note() << "go on ";
        }
      }
    } catch (const Unwind&) {
    }
    if (commit) {
      committed = pending;
      ++commits;
    }
    REQUIRE(read(*database) == committed) << (commit ? "a committed transaction is not all there"
                                                     : "something of a refused one remains");
    sq::Database other(path, sq::Mode::kReadOnly);
    REQUIRE(read(other) == committed) << "seen by others: "
                                      << (commit ? "not all of a committed transaction"
                                                 : "something of a refused one");
    if (src.chance(1, 4)) {
      cs.note() << "reopen ";
      database.reset();
      database.reset(new sq::Database(path, sq::Mode::kReadWrite));
      run(*database, "PRAGMA foreign_keys = ON");
      REQUIRE(read(*database) == committed) << "reopened";
    }
  }
  if (refused)
    cs.nontrivial();
  cs.label("transactions committed", commits);
}

namespace {

// Faults in the calls SQLite makes to the system, in the process that asks for them only.
long g_fault_at(-1), g_calls(0);
bool g_die(false), g_once(false);

bool Fault() {
  if (g_fault_at < 0)
    return false;
  long call(g_calls++);
  if (g_die && call == g_fault_at)
    _exit(77);
  return g_once ? call == g_fault_at : call >= g_fault_at;
}

ssize_t FaultyPwrite(int fd, const void* data, size_t size, off_t offset) {
  if (Fault()) {
    if (g_once && size > 1)
      return pwrite(fd, data, size / 2, offset);  // a short write, continued by the caller or not
    errno = ENOSPC;
    return -1;
  }
  return pwrite(fd, data, size, offset);
}
ssize_t FaultyWrite(int fd, const void* data, size_t size) {
  if (Fault()) {
    errno = ENOSPC;
    return -1;
  }
  return write(fd, data, size);
}
int FaultyFtruncate(int fd, off_t size) {
  if (Fault()) {
    errno = EIO;
    return -1;
  }
  return ftruncate(fd, size);
}
int FaultyUnlink(const char* path) {
  if (Fault()) {
    errno = EIO;
    return -1;
  }
  return unlink(path);
}

void InstallFaults() {
  sqlite3_initialize();
  sqlite3_vfs* vfs(sqlite3_vfs_find(nullptr));
  auto set([&](const char* name, sqlite3_syscall_ptr fn) { vfs->xSetSystemCall(vfs, name, fn); });
  set("pwrite", reinterpret_cast<sqlite3_syscall_ptr>(FaultyPwrite));
  set("pwrite64", reinterpret_cast<sqlite3_syscall_ptr>(FaultyPwrite));
  set("write", reinterpret_cast<sqlite3_syscall_ptr>(FaultyWrite));
  set("ftruncate", reinterpret_cast<sqlite3_syscall_ptr>(FaultyFtruncate));
  set("unlink", reinterpret_cast<sqlite3_syscall_ptr>(FaultyUnlink));
}

struct Plan {
  std::vector<Change> changes;
  bool commit = true;
  bool checkpoint_after = false;
  bool reopen_after = false;
};

}  // namespace

PROPERTY(Crashes, (pbt::Options{3, 25, false, 0})) {
  auto path(pbt::FreshPath("db"));
  Content committed;
  {
    sq::Database database(path, sq::Mode::kReadWriteCreate);
    Create(database);
    std::size_t before(src.draw(4));
    for (std::size_t i(0); i < before; ++i) {
      auto change(DrawChange(src, 3000));
      auto expected(Model(change, committed));
      REQUIRE_EQ(Apply(database, change), expected);
    }
  }
  std::vector<Plan> plans;
  std::size_t count(1 + src.draw(4));
  for (std::size_t i(0); i < count; ++i) {
    Plan plan;
    std::size_t changes(1 + src.draw(5));
    for (std::size_t n(0); n < changes; ++n) {
      plan.changes.push_back(DrawChange(src, src.chance(1, 6) ? 60000 : 3000));
      cs.note() << Text(plan.changes.back());
    }
    plan.commit = !src.chance(1, 4);
    plan.checkpoint_after = src.chance(1, 4);
    plan.reopen_after = src.chance(1, 5);
    cs.note() << (plan.commit ? "commit " : "rollback ")
              << (plan.checkpoint_after ? "checkpoint " : "")
              << (plan.reopen_after ? "reopen " : "");
    plans.push_back(plan);
  }
  // The state after each transaction, in order.
  std::vector<Content> states{committed};
  for (const auto& plan : plans) {
    Content next(states.back());
    for (const auto& change : plan.changes)
      Model(change, next);
    states.push_back(plan.commit ? next : states.back());
  }
  long at(static_cast<long>(src.draw(src.boolean() ? 120 : 25)));
  cs.note() << "dies at call " << at;
  int pipes[2];
  REQUIRE(pipe(pipes) == 0);
  pid_t child(fork());
  if (child == 0) {
    close(pipes[0]);
    auto report([&](char what) {
      if (write(pipes[1], &what, 1) != 1)
        _exit(3);
    });
    try {
      InstallFaults();
      g_die = true;
      g_calls = 0;
      g_fault_at = at;
      std::unique_ptr<sq::Database> database(new sq::Database(path, sq::Mode::kReadWrite));
      for (const auto& plan : plans) {
        {
          Holder transaction(*database);
          for (const auto& change : plan.changes)
            Apply(*database, change);
          report('s');
          if (plan.commit)
            transaction->Commit();
        }
        report('e');
        if (plan.checkpoint_after)
          database->CheckPoint();
        if (plan.reopen_after) {
          database.reset();
          database.reset(new sq::Database(path, sq::Mode::kReadWrite));
        }
      }
      database.reset();
    } catch (...) {
      _exit(4);
    }
    _exit(0);
  }
  close(pipes[1]);
  std::string told;
  char c;
  while (read(pipes[0], &c, 1) == 1)
    told += c;
  close(pipes[0]);
  int status(0);
  REQUIRE(waitpid(child, &status, 0) == child);
  REQUIRE(WIFEXITED(status) && (WEXITSTATUS(status) == 77 || WEXITSTATUS(status) == 0))
      << "status " << status;
  bool died(WEXITSTATUS(status) == 77);
  std::size_t ended(static_cast<std::size_t>(std::count(told.begin(), told.end(), 'e')));
  bool committing(!told.empty() && told.back() == 's');
  sq::Database database(path, sq::Mode::kReadWrite);
  Content found(ReadAll(database));
  REQUIRE(found == states[ended] || (committing && found == states[ended + 1]))
      << (died ? "died" : "ended") << " after " << told << ": found " << Describe(found)
      << " instead of " << Describe(states[ended]);
  if (committing)
    cs.label(found == states[ended] ? "died while committing: absent" :
                                      "died while committing: present");
  {  // and it is still usable
    auto change(DrawChange(src, 3000));
    auto expected(Model(change, found));
    Holder transaction(database);
    REQUIRE_EQ(Apply(database, change), expected);
    transaction->Commit();
  }
  REQUIRE(ReadAll(database) == found) << "after recovery";
  if (died) {
    cs.nontrivial();
    cs.label("died");
  }
}

// Writes fail (device full, short write) from some call on, or once.
PROPERTY(Failures, (pbt::Options{2, 30, false, 0})) {
  auto path(pbt::FreshPath("db"));
  {
    sq::Database database(path, sq::Mode::kReadWriteCreate);
    Create(database);
  }
  static bool installed(false);
  if (!installed)
    InstallFaults();
  installed = true;
  Content committed;
  bool failed(false);
  {
    sq::Database database(path, sq::Mode::kReadWrite);
    std::size_t count(1 + src.draw(4));
    for (std::size_t i(0); i < count; ++i) {
      g_once = src.boolean();
      g_calls = 0;
      g_fault_at = src.boolean() ? static_cast<long>(src.draw(src.boolean() ? 4 : 40)) : -1;
      cs.note() << "begin(fault " << (g_once ? "once at " : "from ") << g_fault_at << ") ";
      Content pending(committed);
      std::string commit;
      std::string begin(Outcome([&] {
        Holder transaction(database);
        std::size_t changes(1 + src.draw(5));
        bool abandoned(false);
        for (std::size_t n(0); n < changes && !abandoned; ++n) {
          auto change(DrawChange(src, src.chance(1, 4) ? 200000 : 3000));
          cs.note() << Text(change);
          Content next(pending);
          auto expected(Model(change, next));
          auto outcome(Apply(database, change));
          if (outcome == expected) {
            pending = next;
          } else {
            REQUIRE(g_fault_at >= 0 && g_calls > g_fault_at) << "failed without a fault";
            REQUIRE_EQ(outcome, "db_error");
            abandoned = true;
            failed = true;
          }
        }
        if (abandoned || src.chance(1, 4)) {
          commit = "not tried";
        } else {
          commit = Outcome([&] { transaction->Commit(); });
          if (commit.empty()) {
            committed = pending;
          } else {
            REQUIRE_EQ(commit, "unable_to_handle_request");
            REQUIRE(g_fault_at >= 0 && g_calls > g_fault_at) << "failed without a fault";
            failed = true;
          }
        }
        cs.note() << "commit: " << commit << ' ';
      }));
      if (!begin.empty())
        REQUIRE(g_fault_at >= 0 && g_calls > g_fault_at) << "failed without a fault";
      g_fault_at = -1;
      Content found(ReadAll(database));
      REQUIRE(found == committed) << "found " << Describe(found) << " instead of "
                                  << Describe(committed);
    }
  }
  sq::Database again(path, sq::Mode::kReadWrite);
  REQUIRE(ReadAll(again) == committed) << "reopened";
  if (failed) {
    cs.nontrivial();
    cs.label("a write failed");
  }
}

// Threads with a connection each count up one row.
PROPERTY(Threads, (pbt::Options{1, 200, true, 0})) {
  auto path(pbt::FreshPath("db"));
  {
    sq::Database database(path, sq::Mode::kReadWriteCreate);
    Create(database);
  }
  std::size_t count(2 + src.draw(3)), each(1 + src.draw(6));
  std::vector<std::vector<bool>> give_up(count);
  for (auto& plan : give_up)
    for (std::size_t i(0); i < each; ++i)
      plan.push_back(src.chance(1, 4));
  cs.note() << count << " threads, " << each << " each";
  g_real_sleep.store(true);
  std::atomic<int> done(0), wrong(0);
  std::vector<std::thread> threads;
  for (std::size_t t(0); t < count; ++t) {
    threads.emplace_back([&, t] {
      sq::Database database(path, sq::Mode::kReadWrite);
      for (std::size_t i(0); i < each; ++i) {
        try {
          Holder transaction(database);
          int value(0);
          {
            sq::Statement find(database, "SELECT value FROM kv WHERE key = 'n'");
            if (find.Step() == sq::StepResult::kSqliteRow) {
              std::string text(find.ColumnText(0));
              value = std::stoi(text);
            }
          }
          sq::Statement put(database, Sql(Change::kPut));
          put.BindText(1, "n");
          put.BindText(2, std::to_string(value + 1));
          put.Step();
          if (give_up[t][i])
            throw Unwind();
          put.Reset();
          transaction->Commit();
          ++done;
        } catch (const Unwind&) {
        } catch (const ms::maidsafe_error& error) {
          if (error.code() != ms::make_error_code(ms::CommonErrors::unable_to_handle_request))
            ++wrong;
        }
      }
    });
  }
  for (auto& thread : threads)
    thread.join();
  g_real_sleep.store(false);
  REQUIRE_EQ(wrong.load(), 0);
  sq::Database database(path, sq::Mode::kReadOnly);
  sq::Statement find(database, "SELECT value FROM kv WHERE key = 'n'");
  int value(0);
  if (find.Step() == sq::StepResult::kSqliteRow)
    value = std::stoi(find.ColumnText(0));
  REQUIRE_EQ(value, done.load());
  cs.label("increments committed", static_cast<std::uint64_t>(value));
  if (value >= 2)
    cs.nontrivial();
}

// Values come back as they were bound, from statements used over and over.
PROPERTY(Values, (pbt::Options{2, 6, false, 0})) {
  auto path(pbt::FreshPath("db"));
  sq::Database database(path, sq::Mode::kReadWriteCreate);
  {
    sq::Statement create(database, "CREATE TABLE v (id TEXT, t TEXT, b BLOB)");
    create.Step();
  }
  struct Row {
    std::string text;
    Bytes blob;
    bool has_text, has_blob;
  };
  std::vector<Row> rows;
  sq::Statement insert(database, "INSERT INTO v (id, t, b) VALUES (?1, ?2, ?3)");
  std::size_t count(1 + src.draw(6));
  std::size_t total(0);
  Row bound{"", {}, false, false};
  for (std::size_t i(0); i < count; ++i) {
    // What isn't bound again keeps its value.
    if (src.chance(3, 4)) {
      bound.text = src.blob(5000);
      bound.has_text = true;
      auto given(bound.text);
      insert.BindText(2, given);
      std::fill(given.begin(), given.end(), '?');
    }
    if (src.chance(3, 4)) {
      bound.blob = src.vec(src.size(5000));
      bound.has_blob = true;
      auto given(bound.blob);
      insert.BindBlob(3, given);
      std::fill(given.begin(), given.end(), 255);
    }
    std::string id(std::to_string(i));
    insert.BindText(1, id);
    id = "overwritten";
    REQUIRE(insert.Step() == sq::StepResult::kSqliteDone);
    insert.Reset();
    rows.push_back(bound);
    total += bound.text.size() + bound.blob.size();
    cs.note() << pbt::Hex(bound.text, 8) << '/' << pbt::Hex(bound.blob, 8) << ' ';
  }
  for (int bad : {0, 4, -1, 100}) {
    REQUIRE_EQ(Outcome([&] { insert.BindText(bad, "x"); }), "db_error");
    REQUIRE_EQ(Outcome([&] { insert.BindBlob(bad, Bytes(1)); }), "db_error");
  }
  sq::Statement find(database,
                     "SELECT t, b, typeof(t), typeof(b), length(CAST(b AS BLOB)) FROM v "
                     "WHERE id = ?");
  std::size_t lookups(1 + src.draw(8));
  for (std::size_t i(0); i < lookups; ++i) {
    std::size_t which(src.draw(rows.size() + 1));
    find.BindText(1, std::to_string(which));
    if (which == rows.size()) {
      REQUIRE(find.Step() == sq::StepResult::kSqliteDone);
    } else {
      const Row& row(rows[which]);
      REQUIRE(find.Step() == sq::StepResult::kSqliteRow);
      REQUIRE(find.ColumnText(0) == row.text);
      REQUIRE(find.ColumnBlob(1) == row.blob);
      // Empty is not the same as absent.
      REQUIRE_EQ(find.ColumnText(2), row.has_text ? "text" : "null");
      REQUIRE_EQ(find.ColumnText(3), row.has_blob ? "blob" : "null");
      // Either kind can be read as the other.
      auto as_blob(find.ColumnBlob(0));
      REQUIRE(std::string(as_blob.begin(), as_blob.end()) == row.text);
      if (src.boolean())
        REQUIRE(find.Step() == sq::StepResult::kSqliteDone);
    }
    find.Reset();
  }
  if (total >= 2)
    cs.nontrivial();
}

PROPERTY(Opening, (pbt::Options{1, 12, false, 0})) {
  auto path(pbt::FreshPath("db"));
  namespace fs = boost::filesystem;
  auto mode(src.boolean() ? sq::Mode::kReadOnly : sq::Mode::kReadWrite);
  cs.nontrivial();
  switch (src.draw(5)) {
    case 0:
      cs.note() << "missing";
      REQUIRE_EQ(Outcome([&] { sq::Database database(path, mode); }), "db_not_present");
      REQUIRE(!fs::exists(path)) << "created";
      break;
    case 1: {
      cs.note() << "missing folder";
      REQUIRE_EQ(Outcome([&] {
                   sq::Database database(path + "/x/y", sq::Mode::kReadWriteCreate);
                 }),
                 "db_not_present");
      break;
    }
    case 2: {  // not a database
      std::string garbage(src.bytes(1024 + src.draw(5000)));
      garbage[0] = 'X';
      { std::ofstream(path, std::ios::binary) << garbage; }
      auto any(src.pick<sq::Mode>({sq::Mode::kReadOnly, sq::Mode::kReadWrite,
                                   sq::Mode::kReadWriteCreate}));
      cs.note() << "garbage";
      auto outcome(Outcome([&] {
        sq::Database database(path, any);
        if (src.boolean())
          sq::Statement(database, kCreate);
        else
          Holder transaction(database);
      }));
      REQUIRE_EQ(outcome, "db_not_present");
      std::ifstream in(path, std::ios::binary);
      std::string after((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
      REQUIRE(after == garbage) << "the file was changed";
      break;
    }
    case 3: {
      cs.note() << "read only";
      Content content;
      {
        sq::Database database(path, sq::Mode::kReadWriteCreate);
        Create(database);
        for (int i(0); i < 3; ++i) {
          auto change(DrawChange(src, 200));
          auto expected(Model(change, content));
          REQUIRE_EQ(Apply(database, change), expected);
        }
      }
      sq::Database database(path, sq::Mode::kReadOnly);
      REQUIRE(ReadAll(database) == content);
      Change change;
      change.kind = Change::kPut;
      change.key = "new";
      REQUIRE_EQ(Apply(database, change), "db_error");
      Outcome([&] {  // beginning one may be refused or not
        Holder transaction(database);
        REQUIRE_EQ(Apply(database, change), "db_error");
      });
      REQUIRE(ReadAll(database) == content);
      break;
    }
    case 4: {
      sq::Database database(path, sq::Mode::kReadWriteCreate);
      int limit(database.InsertLimit());
      cs.note() << "limit " << limit;
      REQUIRE(limit > 0);
      sq::Statement(database, "SELECT ?" + std::to_string(limit));
      REQUIRE_EQ(Outcome([&] {
                   sq::Statement(database, "SELECT ?" + std::to_string(limit + 1 + src.draw(5)));
                 }),
                 "db_error");
      break;
    }
  }
}
