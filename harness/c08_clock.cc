// C08: clock and time stamps.
#include "pbt.h"

#include <chrono>
#include <ctime>

#include "boost/date_time/posix_time/posix_time.hpp"
#include "maidsafe/common/clock.h"
#include "maidsafe/common/utils.h"

namespace ms = maidsafe;
using std::chrono::nanoseconds;

namespace {

const std::int64_t kMax(std::numeric_limits<std::int64_t>::max() / 1000000000 - 1);

std::int64_t Seconds(pbt::Src& src) {
  switch (src.draw(4)) {
    case 0:
      return src.range(-100, 100);
    case 1:
      return src.range(-kMax, kMax);
    case 2: {
      std::int64_t edge(static_cast<std::int64_t>(1) << src.draw(33));
      std::int64_t s(edge + src.range(-2, 2));
      return src.boolean() ? s : -s;
    }
    default:
      return src.boolean() ? kMax - src.range(0, 10) : -kMax + src.range(0, 10);
  }
}

std::int64_t Nanos(pbt::Src& src) {
  switch (src.draw(4)) {
    case 0:
      return src.range(0, 3);
    case 1:
      return 999999999 - src.range(0, 3);
    case 2:
      return 500000000 + src.range(-2, 2);
    default:
      return src.range(0, 999999999);
  }
}

// Days since 1970-01-01 of a date in the proleptic Gregorian calendar.
std::int64_t Days(std::int64_t y, unsigned m, unsigned d) {
  std::int64_t days(0);
  auto leap([](std::int64_t year) {
    return (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
  });
  for (std::int64_t year(1970); year < y; ++year)
    days += leap(year) ? 366 : 365;
  static const unsigned kLengths[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  for (unsigned month(1); month < m; ++month)
    days += kLengths[month - 1] + (month == 2 && leap(y) ? 1 : 0);
  return days + d - 1;
}

}  // namespace

PROPERTY(Seconds_, pbt::Options{3}) {
  std::int64_t s(Seconds(src));
  cs.note() << s << " seconds";
  if (s < 0 || s > 100)
    cs.nontrivial();
  auto t(ms::Clock::from_time_t(s));
  REQUIRE_EQ(t.time_since_epoch().count(), s * 1000000000);
  REQUIRE_EQ(ms::Clock::to_time_t(t), s);
}

PROPERTY(Readings, pbt::Options{3}) {
  std::int64_t s(Seconds(src)), n(Nanos(src));
  std::int64_t s2(src.boolean() ? s : Seconds(src)), n2(Nanos(src));
  std::int64_t a(s * 1000000000 + n), b(s2 * 1000000000 + n2);
  if (a > b)
    std::swap(a, b);
  cs.note() << a << " and " << b << " ns";
  if (a != b)
    cs.nontrivial();
  std::int64_t ta(ms::Clock::to_time_t(ms::Clock::time_point(nanoseconds(a))));
  std::int64_t tb(ms::Clock::to_time_t(ms::Clock::time_point(nanoseconds(b))));
  REQUIRE(ta <= tb) << "earlier reading gives the later second";
  for (auto p : {std::make_pair(a, ta), std::make_pair(b, tb)}) {
    std::int64_t moved(p.first - p.second * 1000000000);
    REQUIRE(moved > -1000000000 && moved < 1000000000) << p.first << " became " << p.second;
    if (p.first >= 0)
      REQUIRE(moved >= 0) << p.first << " became " << p.second;
  }
}

PROPERTY(Now, (pbt::Options{1, 20, true})) {
  cs.note() << "now";
  auto before(std::chrono::system_clock::now());
  auto t(ms::Clock::now());
  auto after(std::chrono::system_clock::now());
  std::uint64_t stamp(ms::GetTimeStamp());
  auto last(std::chrono::system_clock::now());
  if (before > after || after > last || last - before > std::chrono::seconds(5))
    throw pbt::Discard();  // the system's clock was set, or we were held up
  cs.nontrivial();
  auto count([](std::chrono::system_clock::time_point p) {
    return std::chrono::duration_cast<nanoseconds>(p.time_since_epoch()).count();
  });
  REQUIRE(t.time_since_epoch().count() >= count(before));
  REQUIRE(t.time_since_epoch().count() <= count(after));
  std::int64_t epoch(Days(2000, 1, 1) * 86400000);
  std::int64_t stamp_ms(static_cast<std::int64_t>(stamp) + epoch);
  REQUIRE(stamp_ms >= count(after) / 1000000);
  REQUIRE(stamp_ms <= count(last) / 1000000);
  // And as a date.
  auto date(ms::TimeStampToPtime(stamp));
  auto since(date - boost::posix_time::ptime(boost::gregorian::date(1970, 1, 1)));
  REQUIRE_EQ(since.total_milliseconds(), stamp_ms);
}

PROPERTY(Stamps, pbt::Options{3}) {
  std::uint64_t limit(static_cast<std::uint64_t>(7990) * 365 * 86400000);
  std::uint64_t stamp;
  switch (src.draw(4)) {
    case 0:
      stamp = src.draw(5000);
      break;
    case 1:
      stamp = (static_cast<std::uint64_t>(1) << src.draw(47)) + src.draw(3) - 1;
      break;
    case 2:
      stamp = src.draw(366 * 100) * 86400000 + (src.boolean() ? 86399999 : src.draw(3));
      break;
    default:
      stamp = src.draw(limit);
  }
  cs.note() << "stamp " << stamp;
  cs.nontrivial();
  auto date(ms::TimeStampToPtime(stamp));
  auto day(date.date());
  std::int64_t days(Days(day.year(), day.month(), day.day()) - Days(2000, 1, 1));
  std::uint64_t result(static_cast<std::uint64_t>(days) * 86400000 +
                       static_cast<std::uint64_t>(date.time_of_day().total_milliseconds()));
  REQUIRE_EQ(result, stamp) << date;
  REQUIRE_EQ(date.time_of_day().total_microseconds() % 1000, 0);
  std::uint64_t other(stamp + 1 + src.draw(100000));
  REQUIRE(ms::TimeStampToPtime(other) > date);
}
