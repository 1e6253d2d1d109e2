// C29: reading values and passwords from the console, and menus.
#include "pbt.h"

#include <fcntl.h>
#include <openssl/sha.h>
#include <pty.h>
#include <sys/mman.h>
#include <termios.h>
#include <unistd.h>

#include <cstdio>
#include <iostream>
#include <limits>
#include <memory>
#include <streambuf>
#include <string>
#include <vector>

#include "maidsafe/common/cli.h"
#include "maidsafe/common/menu.h"

namespace ms = maidsafe;

namespace {

// Stands in for the user's console: gives typed lines one at a time, and looks at what has been
// printed and whether typing would be shown whenever one is asked for.
class Console : public std::streambuf {
 public:
  struct Reading {
    std::string printed;  // all that had been printed when the line was asked for
    bool echo;
  };

  explicit Console(std::vector<std::string> lines)
      : lines_(std::move(lines)), old_cin_(std::cin.rdbuf(this)) {
    std::cin.clear();
    std::fflush(stdout);
    old_stdout_ = dup(1);
    old_stdin_ = dup(0);
    if (Slave() >= 0) {
      dup2(Slave(), 0);
      SetEcho(true);
    }
    out_ = memfd_create("console", 0);
    if (out_ < 0 || dup2(out_, 1) < 0)
      std::abort();
  }
  ~Console() {
    std::fflush(stdout);
    dup2(old_stdout_, 1);
    dup2(old_stdin_, 0);
    close(old_stdout_);
    close(old_stdin_);
    close(out_);
    std::cin.rdbuf(old_cin_);
    std::cin.clear();
  }
  std::string Printed() const {
    std::fflush(stdout);
    std::string text;
    char buffer[4096];
    ssize_t n;
    while ((n = pread(out_, buffer, sizeof buffer, static_cast<off_t>(text.size()))) > 0)
      text.append(buffer, static_cast<std::size_t>(n));
    return text;
  }
  // Without a terminal, true.
  static bool Echo() {
    if (Slave() < 0)
      return true;
    termios tty;
    if (tcgetattr(Slave(), &tty))
      std::abort();
    return (tty.c_lflag & ECHO) != 0;
  }
  static bool HasTerminal() { return Slave() >= 0; }
  const std::vector<Reading>& readings() const { return readings_; }
  // Of the lines, those not asked for yet.
  std::size_t left() const { return lines_.size() - next_; }
  // Whether a line was left half read.
  bool clean() const { return gptr() == egptr(); }
  void ToEnd() { next_ = lines_.size(); }

 protected:
  int_type underflow() override {
    readings_.push_back(Reading{Printed(), Echo()});
    if (readings_.size() > 400) {
      std::fprintf(stderr, "asks for input for ever\n");
      std::abort();
    }
    if (next_ == lines_.size())
      return traits_type::eof();
    line_ = lines_[next_++] + "\n";
    setg(&line_[0], &line_[0], &line_[0] + line_.size());
    return traits_type::to_int_type(line_[0]);
  }

 private:
  static int Slave() {
    static int slave([] {
      int master_fd(-1), slave_fd(-1);
      if (openpty(&master_fd, &slave_fd, nullptr, nullptr, nullptr))
        return -1;
      return slave_fd;
    }());
    return slave;
  }
  static void SetEcho(bool on) {
    termios tty;
    if (tcgetattr(Slave(), &tty))
      std::abort();
    if (on)
      tty.c_lflag |= ECHO;
    else
      tty.c_lflag &= ~static_cast<tcflag_t>(ECHO);
    tcsetattr(Slave(), TCSANOW, &tty);
  }

  std::vector<std::string> lines_;
  std::size_t next_ = 0;
  std::string line_;
  std::streambuf* old_cin_;
  int old_stdout_, old_stdin_, out_;
  std::vector<Reading> readings_;
};

std::string Printable(pbt::Src& src, std::size_t length) {
  std::string alphabet;
  for (char c(' '); c <= '~'; ++c)
    alphabet += c;
  return src.text(length, alphabet);
}

const std::string kSpaces(" \t\v\f\r");

std::string Spaces(pbt::Src& src, std::size_t max) { return src.text(src.size(max), kSpaces); }

// What a line is as a value of a type.
enum class Kind { kWellFormed, kMalformed, kUnspecified };

std::string FirstWord(const std::string& line) {
  auto begin(line.find_first_not_of(kSpaces + '\n'));
  if (begin == std::string::npos)
    return "";
  auto end(line.find_first_of(kSpaces + '\n', begin));
  return line.substr(begin, end == std::string::npos ? end : end - begin);
}

template <typename T>
Kind Integer(const std::string& line, T& value) {
  auto word(FirstWord(line));
  std::size_t i(0);
  bool negative(false);
  if (i < word.size() && (word[i] == '-' || word[i] == '+'))
    negative = word[i++] == '-';
  std::size_t digits(i);
  while (i < word.size() && word[i] >= '0' && word[i] <= '9')
    ++i;
  if (i == digits)
    return Kind::kMalformed;
  if (i != word.size())
    return Kind::kUnspecified;
  if (negative && !std::is_signed<T>::value)
    return Kind::kUnspecified;
  __int128 total(0);
  for (; digits < word.size(); ++digits) {
    total = total * 10 + (word[digits] - '0');
    if (total > std::numeric_limits<std::uint64_t>::max())
      return Kind::kMalformed;
  }
  if (negative)
    total = -total;
  if (total < std::numeric_limits<T>::min() || total > std::numeric_limits<T>::max())
    return Kind::kMalformed;
  value = static_cast<T>(total);
  return Kind::kWellFormed;
}

Kind Expect(const std::string& line, int& value) { return Integer(line, value); }
Kind Expect(const std::string& line, unsigned& value) { return Integer(line, value); }
Kind Expect(const std::string& line, short& value) { return Integer(line, value); }
Kind Expect(const std::string& line, std::uint64_t& value) { return Integer(line, value); }
Kind Expect(const std::string& line, std::int64_t& value) { return Integer(line, value); }
Kind Expect(const std::string& line, bool& value) {
  int number(0);
  auto kind(Integer(line, number));
  if (kind == Kind::kWellFormed && number != 0 && number != 1)
    return Kind::kMalformed;
  value = number != 0;
  return kind;
}
Kind Expect(const std::string& line, char& value) {
  auto word(FirstWord(line));
  if (word.empty())
    return Kind::kMalformed;
  value = word[0];
  return word.size() == 1 ? Kind::kWellFormed : Kind::kUnspecified;
}
Kind Expect(const std::string& line, std::string& value) {
  value = FirstWord(line);
  return value.empty() ? Kind::kMalformed : Kind::kWellFormed;
}
Kind Expect(const std::string& line, double& value) {
  auto word(FirstWord(line));
  std::size_t i(0), digits(0);
  if (i < word.size() && word[i] == '-')
    ++i;
  for (; i < word.size() && word[i] >= '0' && word[i] <= '9'; ++i)
    ++digits;
  if (i < word.size() && word[i] == '.')
    ++i;
  for (; i < word.size() && word[i] >= '0' && word[i] <= '9'; ++i)
    ++digits;
  if (!digits && i == word.size())
    return Kind::kMalformed;
  if (!digits || i != word.size() || digits > 15)
    return Kind::kUnspecified;
  value = std::strtod(word.c_str(), nullptr);
  return Kind::kWellFormed;
}

std::string Number(pbt::Src& src) {
  static const std::vector<std::string> kEdges{
      "0",           "-0",          "+1",         "2147483647", "2147483648", "-2147483648",
      "-2147483649", "4294967295",  "4294967296", "32767",      "32768",      "-32769",
      "65535",       "65536",       "007",        "1",          "-1",
      "9223372036854775807", "9223372036854775808", "-9223372036854775808",
      "18446744073709551615", "18446744073709551616", "99999999999999999999999999"};
  switch (src.weighted({3, 3, 2})) {
    case 0:
      return std::to_string(src.draw(200));
    case 1:
      return src.pick(kEdges);
    default:
      return (src.boolean() ? "-" : "") + std::to_string(src.u64());
  }
}

std::string Line(pbt::Src& src) {
  std::string line;
  switch (src.weighted({4, 3, 2, 2, 1})) {
    case 0:
      line = Number(src);
      break;
    case 1:
      line = Printable(src, src.size(20));
      break;
    case 2:
      line = src.text(1 + src.draw(8), "-+.0123456789eExab");
      break;
    case 3:
      break;
    default:
      line = src.bytes(src.size(40));
      for (auto& c : line)
        if (c == '\n')
          c = 'n';
  }
  if (src.chance(1, 4))
    line = Spaces(src, 4) + line;
  if (src.chance(1, 4))
    line += src.pick(std::vector<std::string>{" ", "\t", "\r"}) + Spaces(src, 3) +
            (src.boolean() ? Printable(src, src.size(6)) : "");
  return line;
}

std::string Code(const ms::maidsafe_error& error) {
  return error.code() == make_error_code(ms::CommonErrors::invalid_argument)
             ? "invalid_argument"
             : error.code() == make_error_code(ms::CommonErrors::unknown) ? "unknown"
                                                                          : error.what();
}

std::string Shown(const std::string& text) {
  return '"' + text + '"';
}
template <typename T>
std::string Shown(const T& value) {
  std::ostringstream out;
  out.precision(17);
  out << value;
  return out.str();
}

// Reads one value and checks what comes of it.
template <typename T>
void Get(const ms::CLI& cli, const std::string& prompt, Console& console, const std::string* line,
         const std::string& message, bool echo, pbt::Case& cs) {
  auto printed_before(console.Printed().size());
  auto readings_before(console.readings().size());
  auto left_before(console.left());
  std::string outcome("value");
  T value{};
  try {
    value = cli.Get<T>(message, echo);
  } catch (const ms::maidsafe_error& error) {
    outcome = Code(error);
  }
  REQUIRE_EQ(console.readings().size(), readings_before + 1) << "not one line was asked for";
  const auto& reading(console.readings().back());
  REQUIRE(console.clean()) << "part of the line was left";
  std::string shown(reading.printed.substr(printed_before));
  auto at(shown.find(message));
  REQUIRE(at != std::string::npos) << "message not shown: " << Shown(shown);
  REQUIRE(shown.size() >= at + message.size() + prompt.size() &&
          shown.substr(shown.size() - prompt.size()) == prompt)
      << "prompt not shown: " << Shown(shown);
  if (Console::HasTerminal()) {
    REQUIRE_EQ(reading.echo, echo) << "what is typed is " << (echo ? "not " : "") << "shown";
    REQUIRE(Console::Echo()) << "what is typed is not shown afterwards";
  }
  if (!line) {
    REQUIRE_EQ(outcome, std::string("unknown")) << "at the end of input";
    REQUIRE_EQ(console.left(), left_before);
    cs.label("end of input");
    std::cin.clear();
    return;
  }
  REQUIRE_EQ(console.left() + 1, left_before);
  T expected{};
  switch (Expect(*line, expected)) {
    case Kind::kWellFormed:
      REQUIRE_EQ(outcome, std::string("value")) << "for " << Shown(*line);
      REQUIRE(value == expected) << Shown(value) << " for " << Shown(*line);
      cs.label("well-formed");
      break;
    case Kind::kMalformed:
      REQUIRE_EQ(outcome, std::string("invalid_argument"))
          << "for " << Shown(*line) << ": " << Shown(value);
      cs.label("malformed");
      break;
    default:
      REQUIRE(outcome == "value" || outcome == "invalid_argument") << outcome;
      cs.label("neither");
  }
}

std::string Prompt(pbt::Src& src) {
  return src.boolean() ? std::string(">> ") : Printable(src, src.size(8));
}

std::unique_ptr<ms::CLI> MakeCli(const std::string& prompt) {
  return std::unique_ptr<ms::CLI>(prompt == ">> " ? new ms::CLI() : new ms::CLI(prompt));
}

}  // namespace

PROPERTY(Values, (pbt::Options{4, 3, false, 0})) {
  auto prompt(Prompt(src));
  std::vector<std::string> lines;
  std::size_t count(src.size(12));
  for (std::size_t i(0); i < count; ++i)
    lines.push_back(Line(src));
  std::vector<unsigned> types;
  std::vector<bool> echoes;
  std::vector<std::string> messages;
  std::size_t reads(1 + src.draw(count + 2));
  for (std::size_t i(0); i < reads; ++i) {
    types.push_back(static_cast<unsigned>(src.draw(9)));
    echoes.push_back(src.chance(2, 3));
    messages.push_back(Printable(src, src.size(15)));
  }
  cs.note() << "prompt " << Shown(prompt) << "; lines";
  for (const auto& line : lines)
    cs.note() << ' ' << Shown(line);
  auto cli(MakeCli(prompt));
  Console console(lines);
  for (std::size_t i(0); i < reads; ++i) {
    const std::string* line(i < lines.size() ? &lines[i] : nullptr);
    bool echo(echoes[i]);
    switch (types[i]) {
      case 0:
        Get<int>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 1:
        Get<std::string>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 2:
        Get<unsigned>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 3:
        Get<short>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 4:
        Get<std::uint64_t>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 5:
        Get<std::int64_t>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 6:
        Get<bool>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      case 7:
        Get<char>(*cli, prompt, console, line, messages[i], echo, cs);
        break;
      default:
        Get<double>(*cli, prompt, console, line, messages[i], echo, cs);
    }
  }
  if (reads >= 2 && count >= 1)
    cs.nontrivial();
}

PROPERTY(Passwords, (pbt::Options{2, 3, false, 0})) {
  auto prompt(Prompt(src));
  std::vector<std::string> words;
  for (std::size_t i(0), n(1 + src.draw(3)); i < n; ++i) {
    if (i > 0 && src.boolean()) {  // nearly the same
      words.push_back(src.boolean() ? words[0] + "x" : "x" + words[0]);
    } else {
      words.push_back("");
      for (std::size_t k(0), length(1 + src.size(20)); k < length; ++k)
        words.back() += static_cast<char>(src.range(33, 126));
    }
  }
  std::vector<std::string> lines;
  std::size_t count(src.size(14));
  for (std::size_t i(0); i < count; ++i)
    lines.push_back(src.chance(1, 20) ? std::string() : src.pick(words));
  cs.note() << "lines";
  for (const auto& line : lines)
    cs.note() << ' ' << Shown(line);
  std::vector<bool> repeats;
  for (std::size_t i(0), n(1 + src.draw(3)); i < n; ++i)
    repeats.push_back(src.chance(3, 4));
  auto cli(MakeCli(prompt));
  Console console(lines);
  std::size_t next(0);
  for (bool repeat : repeats) {
    // The model.
    std::string expected, outcome;
    std::size_t reads(0);
    std::vector<std::string> entry;
    for (;;) {
      ++reads;
      if (next == lines.size()) {
        expected = "unknown";
        break;
      }
      entry.push_back(lines[next++]);
      if (entry.back().empty()) {
        expected = "invalid_argument";
        break;
      }
      if (!repeat || (entry.size() == 2 && entry[0] == entry[1])) {
        unsigned char hash[64];
        SHA512(reinterpret_cast<const unsigned char*>(entry[0].data()), entry[0].size(), hash);
        expected.assign(hash, hash + 64);
        cs.label("password");
        if (reads > 2)
          cs.label("asked again");
        break;
      }
      if (entry.size() == 2)
        entry.clear();
    }
    cs.note() << (repeat ? " twice" : " once");
    auto readings_before(console.readings().size());
    try {
      outcome = cli->GetPassword(repeat);
    } catch (const ms::maidsafe_error& error) {
      outcome = Code(error);
    }
    REQUIRE_EQ(pbt::Hex(outcome, 80), pbt::Hex(expected, 80));
    REQUIRE_EQ(console.readings().size(), readings_before + reads);
    REQUIRE_EQ(console.left(), lines.size() - next);
    if (Console::HasTerminal()) {
      for (std::size_t i(readings_before); i < console.readings().size(); ++i)
        REQUIRE(!console.readings()[i].echo) << "the password is shown";
      REQUIRE(Console::Echo()) << "what is typed is not shown afterwards";
    }
    for (std::size_t i(readings_before); i < console.readings().size(); ++i) {
      const auto& printed(console.readings()[i].printed);
      std::size_t from(i ? console.readings()[i - 1].printed.size() : 0);
      REQUIRE(printed.find("password", from) != std::string::npos) << "not asked for a password";
      REQUIRE(printed.size() >= prompt.size() &&
              printed.substr(printed.size() - prompt.size()) == prompt)
          << "prompt not shown";
    }
    std::cin.clear();
    if (reads >= 2)
      cs.nontrivial();
  }
  auto printed(console.Printed());
  for (const auto& word : words)
    REQUIRE(word.size() < 14 || printed.find(word) == std::string::npos) << "printed the password";
}

PROPERTY(Words, (pbt::Options{1, 1, false, 0})) {
  std::string line;
  for (std::size_t i(0), n(src.size(8)); i < n; ++i)
    line += src.boolean() ? std::string(src.draw(4), ' ') : Printable(src, src.size(8));
  cs.note() << Shown(line);
  std::vector<std::string> expected;
  bool open(false);
  for (char c : "--" + line) {
    if (c == ' ') {
      open = false;
    } else {
      if (!open)
        expected.emplace_back();
      open = true;
      expected.back() += c;
    }
  }
  auto found(ms::CLI().TokeniseLine(line));
  REQUIRE_EQ(found.size(), expected.size());
  REQUIRE(found == expected);
  if (expected.size() > 1)
    cs.nontrivial();
}

// ------------------------------------------------------------------------------------------ menus
namespace {

enum class Action { kNone, kRecord, kRead, kThrow, kThrowOther };

struct Item {
  std::string name;
  Action action;
  Item* parent = nullptr;
  ms::MenuItem* real = nullptr;
  std::vector<std::unique_ptr<Item>> children;
  std::size_t runs = 0;           // in the model
  std::size_t real_runs = 0;
  std::size_t extra = 0;          // times gone back to, when it may run again
};

struct Walk {
  std::vector<Item*> order;       // what really ran
  std::vector<std::string> read;  // lines read by actions
};

std::string ItemName(pbt::Src& src, const std::vector<std::unique_ptr<Item>>& siblings) {
  std::string name(Printable(src, 1 + src.size(15)));
  for (const auto& sibling : siblings)
    if (sibling->name == name)
      name += std::to_string(siblings.size()) + "#";
  return name;
}

bool HasLine(const std::string& text, const std::string& number, const std::string& name) {
  std::istringstream stream(text);
  std::string line;
  while (std::getline(stream, line)) {
    if (line.compare(0, number.size(), number) != 0)
      continue;
    if (line.size() < number.size() + 1 + name.size() ||
        (line[number.size()] >= '0' && line[number.size()] <= '9'))
      continue;
    if (line.compare(line.size() - name.size(), name.size(), name) == 0)
      return true;
  }
  return false;
}

}  // namespace

PROPERTY(Menus, (pbt::Options{4, 4, false, 0})) {
  auto prompt(Prompt(src));
  Item top;
  top.name = Printable(src, 1 + src.size(12));
  std::unique_ptr<ms::Menu> menu(prompt == ">> " ? new ms::Menu(top.name)
                                                 : new ms::Menu(top.name, prompt));
  Walk walk;
  std::vector<Item*> all{&top};
  std::size_t items(src.size(16));
  bool wide(src.chance(1, 30));
  if (wide)
    items += 95;
  cs.note() << "menu";
  for (std::size_t i(0); i < items; ++i) {
    Item* parent(wide || src.boolean() ? &top : src.pick(all));
    if (parent->action == Action::kRead || parent->action == Action::kThrow ||
        parent->action == Action::kThrowOther)
      parent = &top;
    std::unique_ptr<Item> item(new Item);
    item->name = ItemName(src, parent->children);
    item->parent = parent;
    item->action = static_cast<Action>(src.weighted({2, 8, 2, 1, 1}));
    Item* raw(item.get());
    ms::MenuItem::Functor operation;
    switch (raw->action) {
      case Action::kNone:
        break;
      case Action::kRecord:
        operation = [&walk, raw] {
          walk.order.push_back(raw);
          ++raw->real_runs;
        };
        break;
      case Action::kRead:
        operation = [&walk, raw] {
          walk.order.push_back(raw);
          ++raw->real_runs;
          std::string line;
          std::getline(std::cin, line);
          walk.read.push_back(line);
        };
        break;
      case Action::kThrow:
        operation = [&walk, raw] {
          walk.order.push_back(raw);
          ++raw->real_runs;
          BOOST_THROW_EXCEPTION(ms::MakeError(ms::CommonErrors::no_such_element));
        };
        break;
      case Action::kThrowOther:
        operation = [&walk, raw] {
          walk.order.push_back(raw);
          ++raw->real_runs;
          throw std::runtime_error("thrown by an action");
        };
    }
    auto add([&](const std::string& name) {
      if (raw->action == Action::kNone && name.size() % 2)
        return parent == &top ? menu->AddItem(name) : parent->real->AddChildItem(name);
      return parent == &top ? menu->AddItem(name, operation)
                            : parent->real->AddChildItem(name, operation);
    });
    item->real = add(item->name);
    REQUIRE(item->real);
    cs.note() << ' ' << Shown(parent->name) << "->" << Shown(item->name) << "("
              << static_cast<int>(raw->action) << ')';
    if (src.chance(1, 8)) {  // refused: taken or empty
      bool refused(false);
      try {
        add(src.boolean() ? "" : item->name);
      } catch (const ms::maidsafe_error& error) {
        refused = Code(error) == "invalid_argument";
      }
      REQUIRE(refused) << "an item without a name of its own";
      cs.label("name refused");
    }
    all.push_back(raw);
    parent->children.push_back(std::move(item));
  }

  // The model draws what is typed as it goes.
  std::vector<std::string> lines, expected_read;
  std::vector<Item*> expected_order;
  std::vector<Item*> shown_at;       // the menu shown when each option is asked for
  std::vector<bool> fresh, invalid_before, asked;  // per line
  Item* current(&top);
  int outcome(-1);  // -1: end of input
  bool show(true), invalid(false), gone_back(false);
  std::size_t steps(src.size(20)), chosen(0);
  std::size_t maximum(steps);
  for (std::size_t step(0); step < maximum; ++step) {
    shown_at.push_back(current);
    fresh.push_back(show);
    invalid_before.push_back(invalid);
    asked.push_back(true);
    show = invalid = false;
    std::size_t kind(src.weighted({12, 3, 4, 1}));
    if (current->children.empty() && kind == 0)
      kind = 2;
    if (kind == 0) {
      std::size_t n(src.index(current->children.size()));
      if (n == 98 && current->parent) {
        kind = 1;
      } else {
        Item* item(current->children[n].get());
        lines.push_back(Spaces(src, 2) + std::to_string(n + 1) + Spaces(src, 1));
        ++chosen;
        if (item->action != Action::kNone) {
          expected_order.push_back(item);
          ++item->runs;
        }
        if (item->action == Action::kRead) {
          expected_read.push_back(Printable(src, src.size(10)));
          lines.push_back(expected_read.back());
          shown_at.push_back(nullptr);
          fresh.push_back(false);
          invalid_before.push_back(false);
          asked.push_back(false);
          cs.label("action reads a line");
        } else if (item->action == Action::kThrow) {
          outcome = ms::ErrorToInt(ms::MakeError(ms::CommonErrors::no_such_element));
          cs.label("action fails");
          break;
        } else if (item->action == Action::kThrowOther) {
          outcome = ms::ErrorToInt(ms::MakeError(ms::CommonErrors::unknown));
          cs.label("action fails");
          break;
        }
        if (!item->children.empty()) {
          current = item;
          cs.label("into a sub-menu");
        }
        show = true;
        continue;
      }
    }
    if (kind == 1) {
      lines.push_back("99");
      if (current->parent) {
        current = current->parent;
        if (current->action == Action::kRecord) {
          ++current->extra;
          gone_back = true;
        }
        cs.label("back up");
        show = true;
      } else if (current->children.size() >= 99) {
        outcome = -2;  // which item has this number is checked below
        lines.pop_back();
        lines.push_back("-5");
        outcome = -1;
        invalid = true;
      } else {
        invalid = true;
        cs.label("invalid");
      }
      continue;
    }
    if (kind == 2) {
      static const std::vector<std::string> kBad{"",  "x", "-1", "-", "abc 1", "2147483648",
                                                 "-2147483648", "2147483647", "99999999999",
                                                 "\t"};
      switch (src.draw(3)) {
        case 0:
          lines.push_back(src.pick(kBad));
          break;
        case 1:
          lines.push_back(std::to_string(current->children.size() + 1 + src.draw(5)));
          break;
        default: {  // what is a valid choice in fewer bits
          static const std::vector<long long> kSteps{256,        -256,       65536,       -65536,
                                                     1 << 16,    -100,       1000,        1LL << 31,
                                                     1LL << 32, -(1LL << 32), 1LL << 40, -1000000};
          long long choice(src.pick(kSteps) * static_cast<long long>(1 + src.draw(3)) +
                           static_cast<long long>(src.draw(current->children.size() + 1)));
          if (choice >= 0 && choice <= static_cast<long long>(current->children.size()))
            choice = -choice - 1;
          if (choice == -(1LL << 31))
            --choice;
          lines.push_back(std::to_string(choice));
          cs.label("invalid, but valid in fewer bits");
        }
      }
      if (lines.back() == "99" && current->parent)
        lines.back() = "-7";
      invalid = true;
      cs.label("invalid");
      continue;
    }
    lines.push_back(src.boolean() ? "0" : "00");
    outcome = 0;
    break;
  }
  cs.note() << "; lines";
  for (const auto& line : lines)
    cs.note() << ' ' << Shown(line);
  for (std::size_t i(0), n(src.draw(3)); i < n && outcome != -1; ++i)
    lines.push_back("1");  // not to be read
  std::size_t used(shown_at.size());
  int result(0);
  std::vector<Console::Reading> readings;
  std::size_t left(0);
  {
    Console console(lines);
    result = menu->Run();
    readings = console.readings();
    left = console.left();
    if (Console::HasTerminal())
      REQUIRE(Console::Echo());
  }
  if (outcome == -1) {
    REQUIRE(result != 0) << "no error at the end of input";
    REQUIRE_EQ(left, 0U);
    cs.label("end of input");
  } else {
    REQUIRE_EQ(result, outcome);
    REQUIRE_EQ(lines.size() - left, used) << "more or fewer lines read than typed";
    cs.label("quit or failed");
  }
  REQUIRE(readings.size() >= used);
  REQUIRE(walk.read == expected_read);
  for (const auto* item : all) {
    REQUIRE(item->real_runs >= item->runs && item->real_runs <= item->runs + item->extra)
        << Shown(item->name) << " ran " << item->real_runs << " times, not " << item->runs;
  }
  if (!gone_back)
    REQUIRE(walk.order == expected_order) << "actions ran in another order";
  std::size_t previous(0);
  for (std::size_t i(0); i < used; ++i) {
    std::string shown(readings[i].printed.substr(previous));
    previous = readings[i].printed.size();
    if (!asked[i])
      continue;
    REQUIRE(shown.size() >= prompt.size() && shown.substr(shown.size() - prompt.size()) == prompt)
        << "prompt not shown";
    if (invalid_before[i])
      REQUIRE(shown.find("nvalid") != std::string::npos) << "not told: " << Shown(shown);
    if (fresh[i]) {
      const Item& item(*shown_at[i]);
      REQUIRE(HasLine(shown, "", item.name) || shown.find(item.name) != std::string::npos)
          << Shown(item.name) << " not shown: " << Shown(shown);
      for (std::size_t n(0); n < item.children.size(); ++n)
        REQUIRE(HasLine(shown, std::to_string(n + 1), item.children[n]->name))
            << "option " << n + 1 << " not shown: " << Shown(shown);
      if (item.parent)
        REQUIRE(HasLine(shown, "99", item.parent->name)) << "no way back: " << Shown(shown);
      else
        REQUIRE(shown.find("ack to") == std::string::npos) << "a way back from the top: "
                                                           << Shown(shown);
    }
  }
  if (chosen >= 1 && items >= 2)
    cs.nontrivial();
}

// Quitting from the top and running again; items added in between.
PROPERTY(MenuAgain, (pbt::Options{1, 4, false, 0})) {
  std::vector<int> runs;
  std::vector<int> expected;
  ms::Menu menu("Top");
  std::size_t rounds(1 + src.draw(4)), count(0);
  for (std::size_t round(0); round < rounds; ++round) {
    for (std::size_t n(src.draw(3) + (count == 0)); n > 0; --n) {
      int id(static_cast<int>(count++));
      menu.AddItem("item " + std::to_string(id), [id, &runs] { runs.push_back(id); });
    }
    std::vector<std::string> lines;
    for (std::size_t n(src.size(5)); n > 0; --n) {
      int id(static_cast<int>(src.draw(count)));
      expected.push_back(id);
      lines.push_back(std::to_string(id + 1));
    }
    lines.push_back("0");
    lines.push_back("1");
    for (const auto& line : lines)
      cs.note() << line << ' ';
    Console console(lines);
    REQUIRE_EQ(menu.Run(), 0);
    REQUIRE_EQ(console.left(), 1U);
    REQUIRE(runs == expected);
  }
  if (expected.size() >= 2)
    cs.nontrivial();
}
