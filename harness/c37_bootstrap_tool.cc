// C37: the tool which edits files of bootstrap endpoints.
#include "pbt.h"
#include "tool.h"

#include <algorithm>
#include <fstream>
#include <string>
#include <utility>
#include <vector>

#include "maidsafe/common/log.h"

// The tool itself, whose main function is called in other processes.
#define main ToolMain
#include "maidsafe/common/tools/bootstrap_file_tool.cc"
#undef main

namespace {

using Endpoint = std::pair<std::string, int>;
using Endpoints = std::vector<Endpoint>;

std::string Text(const Endpoint& endpoint) {
  return endpoint.first + ':' + std::to_string(endpoint.second);
}

Endpoint DrawEndpoint(pbt::Src& src, const Endpoints& known) {
  if (!known.empty() && src.chance(1, 3))
    return src.pick(known);
  static const std::vector<std::string> kAddresses{"1.2.3.4",     "10.0.0.1",        "127.0.0.1",
                                                   "192.168.0.1", "255.255.255.255", "0.0.0.1"};
  std::string address(src.pick(kAddresses));
  if (src.chance(1, 3)) {
    address.clear();
    for (int i(0); i < 4; ++i)
      address += (i ? "." : "") + std::to_string(src.draw(256));
    if (address == "0.0.0.0")
      address = "0.0.1.0";
  }
  int port(src.chance(1, 2) ? 1025 + static_cast<int>(src.draw(65535 - 1025 + 1))
                            : src.pick(std::vector<int>{1025, 1026, 5483, 65534, 65535}));
  return {address, port};
}

std::string BadEndpoint(pbt::Src& src) {
  auto good(DrawEndpoint(src, Endpoints()));
  switch (src.draw(8)) {
    case 0:
      return "";
    case 1:
      return good.first;
    case 2:
      return good.first + ':';
    case 3:
      return good.first + ':' +
             src.pick(std::vector<std::string>{"0", "1", "1024", "65536", "70000", "-5483",
                                               "4294972779", "99999999999999999999", "port",
                                               "5483x", "5483 ", "54:83", "5483.5"});
    case 4:
      return src.pick(std::vector<std::string>{"256.1.1.1", "1.2.3", "1.2.3.4.5", "a.b.c.d", "::1",
                                               "0.0.0.0", "localhost", "1.2.3.4 ", "1..2.3"}) +
             ":5483";
    case 5:
      return ":5483";
    case 6:
      return src.text(src.size(20), "0123456789.:ax ") + "!";
    default:
      return "1.1:5483";
  }
}

void Write(const fs::path& path, const std::string& content) {
  std::ofstream(path.c_str(), std::ios::binary) << content;
}

std::string FileOf(const Endpoints& endpoints) {
  maidsafe::detail::BootstrapCereal list;
  for (const auto& endpoint : endpoints) {
    list.bootstrap_contacts_.emplace_back();
    list.bootstrap_contacts_.back().ip_ = endpoint.first;
    list.bootstrap_contacts_.back().port_ = endpoint.second;
  }
  auto bytes(maidsafe::Serialise(list));
  return std::string(bytes.begin(), bytes.end());
}

std::string Content(const fs::path& path) {
  std::ifstream in(path.c_str(), std::ios::binary);
  if (!in)
    return "no file";
  return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}

std::size_t Count(const std::string& text, const std::string& part) {
  std::size_t count(0);
  for (auto at(text.find(part)); at != std::string::npos; at = text.find(part, at + part.size()))
    ++count;
  return count;
}

}  // namespace

PROPERTY(Sessions, (pbt::Options{1, 30, false, 0})) {
  fs::path root(fs::canonical(pbt::ScratchDir()) / fs::path(pbt::FreshPath("tool")).filename());
  fs::create_directories(root / "folder");
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  // What is typed, and per command what has to be shown and what must not.
  std::string typed;
  auto line([&](const std::string& text) {
    typed += text + '\n';
    cs.note() << " [" << text << ']';
  });
  struct Expected {
    std::vector<std::string> shown, not_shown;
    std::size_t refused = 0;     // how often an error about the endpoint or path is given
    bool view = false;
    Endpoints endpoints;
  };
  std::vector<Expected> expected;
  std::map<std::string, std::string> files;  // what they must contain in the end
  Endpoints list;
  bool changed(false), exited(false);
  std::size_t edits(0);
  const std::string kNo("\n");
  auto confirm([&] {
    auto answer(src.pick(std::vector<std::string>{"y", "Y", "n", "", "yes", "y "}));
    line(answer);
    return answer == "y" || answer == "Y";
  });
  auto endpoint([&](Expected& now) {
    for (std::size_t i(0), n(src.chance(1, 3) ? 1 + src.draw(3) : 0); i < n; ++i) {
      line(BadEndpoint(src));
      ++now.refused;
      cs.label("bad endpoint");
    }
    auto result(DrawEndpoint(src, list));
    line(Text(result));
    return result;
  });
  std::size_t steps(src.size(20));
  for (std::size_t step(0); step < steps && !exited; ++step) {
    Expected now;
    for (std::size_t i(0), n(src.chance(1, 8) ? 1 + src.draw(2) : 0); i < n; ++i)
      line(src.pick(std::vector<std::string>{"0", "8", "x", "", "-1", "99999999999", "9"}));
    int choice(1 + static_cast<int>(src.weighted({3, 4, 4, 3, 3, 4, 1})));
    line(std::to_string(choice));
    switch (choice) {
      case 1: {
        for (std::size_t i(0), n(src.chance(1, 4) ? 1 : 0); i < n; ++i) {
          line((root / src.pick(std::vector<std::string>{"missing/file", "nothing", "folder"}))
                   .string());
          ++now.refused;
        }
        auto path(root / ("file" + std::to_string(step)));
        std::vector<std::string> saved;
        for (const auto& file : files)
          if (file.first.find("saved") != std::string::npos)
            saved.push_back(file.first);
        Endpoints loaded;
        bool good(false);
        std::string content;
        switch (saved.empty() ? 1 + src.weighted({4, 1, 1, 1, 2})
                              : src.weighted({4, 4, 1, 1, 1, 2})) {
          case 0: {  // saved by the tool
            path = src.pick(saved);
            content = files[path.string()];
            good = true;
            maidsafe::detail::BootstrapCereal parsed;
            maidsafe::Parse(maidsafe::SerialisedData(content.begin(), content.end()), parsed);
            for (const auto& item : parsed.bootstrap_contacts_)
              loaded.emplace_back(item.ip_, item.port_);
            good = !loaded.empty();
            cs.label("loads what it saved");
            break;
          }
          case 1:
            for (std::size_t i(0), n(1 + src.size(8)); i < n; ++i)
              loaded.push_back(DrawEndpoint(src, loaded));
            content = FileOf(loaded);
            good = true;
            break;
          case 2:  // no endpoints
            content = FileOf(loaded);
            break;
          case 3:  // empty
            break;
          case 4: {  // incomplete
            for (std::size_t i(0), n(1 + src.size(4)); i < n; ++i)
              loaded.push_back(DrawEndpoint(src, loaded));
            content = FileOf(loaded);
            content.resize(src.index(content.size()));
            break;
          }
          default: {  // an address which is none, anywhere in the list
            for (std::size_t i(0), n(1 + src.size(4)); i < n; ++i)
              loaded.push_back(DrawEndpoint(src, loaded));
            src.pick(loaded);
            loaded[src.index(loaded.size())].first =
                src.pick(std::vector<std::string>{"", "::1", "1.2.3", "300.1.1.1", "host"});
            content = FileOf(loaded);
          }
        }
        if (!files.count(path.string())) {
          Write(path, content);
          files[path.string()] = content;
        }
        line(path.string());
        if (changed && !confirm()) {
          now.not_shown.push_back("\nLoaded");
          break;
        }
        if (good) {
          list = loaded;
          changed = false;
          now.shown.push_back("\nLoaded \"" + path.string() + '"');
          ++edits;
        } else {
          now.not_shown.push_back("\nLoaded");
          now.shown.push_back('"' + path.string() + '"');
          cs.label("bad file");
        }
        break;
      }
      case 2: {
        auto item(endpoint(now));
        list.insert(list.begin(), item);
        changed = true;
        now.shown.push_back("\nPrepended " + Text(item));
        ++edits;
        break;
      }
      case 3: {
        auto item(endpoint(now));
        list.push_back(item);
        changed = true;
        now.shown.push_back("\nAppended " + Text(item));
        ++edits;
        break;
      }
      case 4: {
        auto item(endpoint(now));
        auto found(std::find(list.begin(), list.end(), item));
        if (found == list.end()) {
          now.shown.push_back("\n" + Text(item) + " is not one");
          now.not_shown.push_back("Removed");
        } else {
          list.erase(found);
          changed = true;
          now.shown.push_back("\nRemoved " + Text(item));
          ++edits;
        }
        break;
      }
      case 5: {
        if (src.chance(1, 6)) {
          line((root / "missing" / "file").string());
          ++now.refused;
        }
        if (src.chance(1, 8)) {  // cannot be written
          line((root / "folder").string());
          now.shown.push_back("\nFailed");
          now.not_shown.push_back("\nSaved");
          break;
        }
        auto path(root / ("saved" + std::to_string(src.draw(3))));
        line(path.string());
        files[path.string()] = FileOf(list);
        changed = false;
        now.shown.push_back("\nSaved \"" + path.string() + '"');
        cs.label("saved");
        break;
      }
      case 6:
        now.view = true;
        now.endpoints = list;
        break;
      default:
        if (!changed || confirm())
          exited = true;
    }
    expected.push_back(now);
  }
  bool partial(false);
  if (!exited) {
    if (src.boolean()) {
      line("7");
      if (changed)
        line("y");
      exited = true;
      expected.emplace_back();
    } else if (src.boolean()) {  // the input ends within a command
      line(src.pick(std::vector<std::string>{"1", "2", "3", "4", "5"}));
      partial = true;
      if (src.boolean())
        typed += "incomplete";
    }
  }
  if (!exited)
    cs.label("end of input");
  auto result(tool::Run(typed, root, [] {
    std::string name("bootstrap_file_tool");
    char* arguments[] = {&name[0], nullptr};
    int code(ToolMain(1, arguments));
    maidsafe::log::Logging::Instance().~Logging();
    return code;
  }));
  REQUIRE(result.ended) << "does not end; shown last: "
                        << result.output.substr(result.output.size() -
                                                std::min<std::size_t>(result.output.size(), 300));
  REQUIRE(WIFEXITED(result.status)) << "ended by signal " << WTERMSIG(result.status);
  if (exited)
    REQUIRE_EQ(WEXITSTATUS(result.status), 0);
  const std::string kMenu("\n=====================================================\n");
  std::vector<std::string> blocks;
  std::size_t at(result.output.find(kMenu));
  REQUIRE_EQ(at, 0U) << "no menu";
  while (at != std::string::npos) {
    auto end(result.output.find(kMenu, at + 1));
    blocks.push_back(result.output.substr(at, end == std::string::npos ? end : end - at));
    at = end;
  }
  if (exited)
    REQUIRE_EQ(blocks.size(), expected.size()) << "times the menu was shown";
  else
    REQUIRE(blocks.size() >= expected.size()) << "times the menu was shown: " << blocks.size();
  for (std::size_t i(0); i < expected.size(); ++i) {
    const auto& now(expected[i]);
    const auto& block(blocks[i]);
    for (const auto& text : now.shown)
      REQUIRE(block.find(text) != std::string::npos) << "command " << i << ": not told \"" << text
                                                     << "\" but " << block.substr(350);
    for (const auto& text : now.not_shown)
      REQUIRE(block.find(text) == std::string::npos) << "command " << i << ": told " << text;
    REQUIRE_EQ(Count(block, "is not a valid endpoint") + Count(block, " doesn't exist.\n\n") +
                   Count(block, " isn't a regular file.\n\n"),
               now.refused)
        << "command " << i << ": " << block.substr(350);
    if (now.view) {
      std::string wanted(now.endpoints.empty() ? "\nCurrently no endpoints are loaded.\n"
                                               : "\nCurrent endpoints:\n");
      for (const auto& item : now.endpoints)
        wanted += Text(item) + '\n';
      auto start(block.find("\nCurrent"));
      REQUIRE(start != std::string::npos) << "command " << i << ": nothing shown";
      std::string shown(block.substr(start));
      while (shown.size() > 1 && shown.back() == '\n' && shown[shown.size() - 2] == '\n')
        shown.pop_back();
      REQUIRE_EQ(shown, wanted) << "command " << i;
    }
  }
  for (const auto& file : files)
    REQUIRE(Content(file.first) == file.second) << file.first << " does not contain what it should";
  static_cast<void>(partial);
  if (edits >= 2)
    cs.nontrivial();
}
