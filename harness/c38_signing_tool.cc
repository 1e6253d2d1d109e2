// C38: the tool which makes keys, signs, encrypts and shares keys among a group.
#include "pbt.h"
#include "tool.h"

#include <algorithm>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "boost/filesystem.hpp"
#include "boost/tokenizer.hpp"

#include "maidsafe/common/crypto.h"
#include "maidsafe/common/encode.h"
#include "maidsafe/common/identity.h"
#include "maidsafe/common/rsa.h"
#include "maidsafe/common/utils.h"

#include "rsa_keys.h"

namespace harness {
struct Exited {
  int code;
};
}  // namespace harness

// The tool itself, whose main function is called in other processes.
#define main ToolMain
#define exit(code) throw ::harness::Exited{code}
#include "maidsafe/common/tools/signing_tool.cc"
#undef exit
#undef main

namespace {

namespace asymm = maidsafe::asymm;

// What a file contains: known bytes, or what the tool made of something.
struct Content;
using ContentPtr = std::shared_ptr<const Content>;
struct Content {
  enum Kind { kBytes, kPrivate, kPublic, kEncrypted, kSignature, kShare,
              kBadPrivate, kBadPublic } kind = kBytes;
  std::string bytes;     // also the password of kEncrypted
  int key = -1;          // of kPrivate, kPublic and kSignature; the group of kShare
  int index = 0;         // of kShare
  ContentPtr of;         // of kEncrypted and kSignature
};

ContentPtr Bytes_(const std::string& bytes) {
  auto content(std::make_shared<Content>());
  content->bytes = bytes;
  return content;
}

ContentPtr Key_(Content::Kind kind, int key) {
  auto content(std::make_shared<Content>());
  content->kind = kind;
  content->key = key;
  return content;
}

ContentPtr Encrypted(ContentPtr of, const std::string& password) {
  auto content(std::make_shared<Content>());
  content->kind = Content::kEncrypted;
  content->of = std::move(of);
  content->bytes = password;
  return content;
}

bool Same(const ContentPtr& a, const ContentPtr& b) {
  if (a == b)
    return true;
  if (!a || !b || a->kind != b->kind || a->bytes != b->bytes || a->key != b->key ||
      a->index != b->index)
    return false;
  return a->kind == Content::kBytes || a->kind == Content::kPrivate ||
         a->kind == Content::kPublic || a->kind == Content::kShare ||
         a->kind == Content::kBadPrivate || a->kind == Content::kBadPublic || Same(a->of, b->of);
}

struct Known {
  Known(const char* private_hex, const char* public_hex) {
    keys.private_key =
        asymm::DecodeKey(asymm::EncodedPrivateKey(maidsafe::hex::DecodeToBytes(private_hex)));
    keys.public_key =
        asymm::DecodeKey(asymm::EncodedPublicKey(maidsafe::hex::DecodeToBytes(public_hex)));
    auto bytes(maidsafe::hex::DecodeToBytes(private_hex));
    private_bytes.assign(bytes.begin(), bytes.end());
    bytes = maidsafe::hex::DecodeToBytes(public_hex);
    public_bytes.assign(bytes.begin(), bytes.end());
  }
  asymm::Keys keys;
  std::string private_bytes, public_bytes;
};

// Keys which can be read but are none: a product which is not that of the primes, or an even one.
std::string BadKey(bool is_private) {
  const asymm::PrivateKey& good(Known(kAPrivate, kAPublic).keys.private_key);
  CryptoPP::ByteQueue queue;
  if (is_private) {
    auto key(good);
    key.SetModulus(key.GetModulus() + CryptoPP::Integer::Two());
    key.DEREncodePrivateKey(queue);
  } else {
    asymm::PublicKey key(good);
    key.SetModulus(key.GetModulus() + CryptoPP::Integer::One());
    key.DEREncodePublicKey(queue);
  }
  std::string bytes(static_cast<std::size_t>(queue.CurrentSize()), '\0');
  queue.Get(reinterpret_cast<maidsafe::byte*>(&bytes[0]), bytes.size());
  return bytes;
}

const std::vector<Known>& KnownKeys() {
  static const std::vector<Known> keys{{kAPrivate, kAPublic}, {kBPrivate, kBPublic},
                                       {kSmallPrivate, kSmallPublic}};
  return keys;
}

std::string Read(const fs::path& path) {
  std::ifstream in(path.c_str(), std::ios::binary);
  if (!in)
    return "there is no such file";
  return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}

void Write(const fs::path& path, const std::string& content) {
  std::ofstream(path.c_str(), std::ios::binary) << content;
}

struct Group {
  int key = -1;
  std::size_t needed = 0;
  std::vector<std::string> names, passwords;  // of its members
  std::string location;
};

}  // namespace

PROPERTY(Sessions, (pbt::Options{1, 60, false, 0})) {
  const auto& known(KnownKeys());
  fs::path root(fs::canonical(pbt::ScratchDir()) / fs::path(pbt::FreshPath("tool")).filename());
  fs::create_directories(root / "folder");
  pbt::Finally remove([&] {
    boost::system::error_code ec;
    fs::remove_all(root, ec);
  });
  std::string typed;
  auto line([&](const std::string& text) {
    typed += text + '\n';
    cs.note() << " [" << text << ']';
  });
  struct Expected {
    std::vector<std::string> shown, not_shown;
  };
  const std::vector<std::string> kSuccesses{"sucessful", "Stored ", "loaded and valid",
                                            "Signature valid", "is now "};
  std::vector<Expected> expected;
  std::map<std::string, ContentPtr> files;
  std::vector<Group> groups;
  int private_key(-1), public_key(-1), made(0);
  bool signed_in(false), exited(false), partial(false);
  std::size_t worthwhile(0);

  auto put([&](const std::string& name, const std::string& bytes) {
    Write(root / name, bytes);
    files[name] = Bytes_(bytes);
  });
  // Files there are from the start; most commands are about these.
  for (std::size_t i(0), n(1 + src.draw(3)); i < n; ++i)
    put("file" + std::to_string(i), src.chance(1, 10) ? "" : src.blob(3000) + src.bytes(1));
  for (std::size_t i(0); i < known.size(); ++i) {
    if (src.chance(2, 3)) {
      auto number(std::to_string(i));
      put("private" + number, known[i].private_bytes);
      files["private" + number] = Key_(Content::kPrivate, static_cast<int>(i));
      put("public" + number, known[i].public_bytes);
      files["public" + number] = Key_(Content::kPublic, static_cast<int>(i));
    }
  }
  for (bool is_private : {true, false}) {
    static const std::string kBad[2]{BadKey(false), BadKey(true)};
    if (src.chance(1, 3)) {
      auto bad(std::make_shared<Content>());
      bad->kind = is_private ? Content::kBadPrivate : Content::kBadPublic;
      bad->bytes = kBad[is_private];
      std::string name(is_private ? "bad-private" : "bad-public");
      Write(root / name, bad->bytes);
      files[name] = bad;
    }
  }
  auto password([&] {
    static const std::vector<std::string> kSome{"a", "b", "secret", "Secret", "1", "secret1"};
    return src.pick(kSome);
  });
  auto type_password([&](const std::string& text) {
    for (std::size_t i(0), n(src.chance(1, 5) ? 1 + src.draw(2) : 0); i < n; ++i) {
      auto first(text), second(src.pick(std::vector<std::string>{
          text + "x", "other", text.substr(0, text.size() - 1) + "y", "x" + text}));
      if (src.boolean())
        std::swap(first, second);
      line(first);
      line(second);
    }
    line(text);
    line(text);
  });
  auto word([&](const std::string& text) {
    if (src.chance(1, 12))
      line("");
    line(text);
  });
  auto any_file([&]() -> std::string {
    if (src.chance(1, 12))
      return src.pick(std::vector<std::string>{"nothing", "missing/file", "folder"});
    std::vector<std::string> names;
    for (const auto& file : files)
      names.push_back(file.first);
    return src.pick(names);
  });
  auto file_of([&](Content::Kind kind) -> std::string {
    std::vector<std::string> names;
    for (const auto& file : files)
      if (file.second->kind == kind)
        names.push_back(file.first);
    return names.empty() || src.chance(1, 4) ? any_file() : src.pick(names);
  });
  auto content([&](const std::string& name) -> ContentPtr {
    auto found(files.find(name));
    return found == files.end() ? nullptr : found->second;
  });
  // Names of files to save to; NAME.sig is left to signatures.
  auto target([&]() -> std::string {
    switch (src.weighted({6, 2, 1})) {
      case 0:
        return "saved" + std::to_string(src.draw(4));
      case 1: {
        auto name(any_file());
        return name == "nothing" || name.find(".sig") != std::string::npos ? "saved" : name;
      }
      default:
        return "missing/file";
    }
  });
  auto writable([](const std::string& name) {
    return name.find("missing") == std::string::npos && name != "folder";
  });
  auto failed([&](Expected& now) { now.not_shown = kSuccesses; });
  auto save([&](Expected& now, Content::Kind kind) {
    int key(kind == Content::kPrivate ? private_key : public_key);
    auto name(target());
    word(name);
    if (key < 0) {
      now.shown.push_back("You have not loaded or created");
      return failed(now);
    }
    if (!writable(name)) {
      now.shown.push_back("error writing file");
      return;
    }
    files[name] = Key_(kind, key);
    now.shown.push_back(std::string("Stored ") +
                        (kind == Content::kPrivate ? "private" : "public") + " key in " + name);
    ++worthwhile;
    cs.label("key saved");
  });

  std::size_t steps(src.size(24));
  for (std::size_t step(0); step < steps && !exited; ++step) {
    Expected now;
    for (std::size_t i(0), n(src.chance(1, 10) ? 1 : 0); i < n; ++i)
      line(src.pick(std::vector<std::string>{"x", "", "99999999999"}));
    int choice(static_cast<int>(
        src.weighted({1, made ? 0U : 1U, 4, 4, 8, 8, 3, 5, 8, 8, 8, 8, 2})));
    if (choice == 12) {
      line(src.pick(std::vector<std::string>{"12", "-1", "100", "12x"}));
      now.shown.push_back("unknown option");
      expected.push_back(now);
      expected.emplace_back();  // the menu is shown twice
      continue;
    }
    line(std::to_string(choice) + (src.chance(1, 12) ? " more" : ""));
    switch (choice) {
      case 0:
        exited = true;
        break;
      case 1:
        ++made;
        private_key = public_key = 100 + made;
        now.shown.push_back("Creating keys sucessful");
        cs.label("keys made");
        break;
      case 2:
        if (!signed_in)
          save(now, Content::kPrivate);
        else
          failed(now);
        break;
      case 3:
        save(now, Content::kPublic);
        break;
      case 4:
      case 5: {
        auto kind(choice == 4 ? Content::kPrivate : Content::kPublic);
        auto bad(choice == 4 ? Content::kBadPrivate : Content::kBadPublic);
        auto name(file_of(src.chance(1, 10) ? bad : kind));
        word(name);
        auto from(content(name));
        if (!from) {
          now.shown.push_back("error reading file");
          failed(now);
        } else if (from->kind == bad) {
          now.shown.push_back(choice == 4 ? "private key invalid" : "public key invalid");
          failed(now);
          cs.label("invalid key");
        } else if (from->kind != kind) {
          now.shown.push_back("failed: ");
          failed(now);
          cs.label("not a key");
        } else {
          (choice == 4 ? private_key : public_key) = from->key;
          now.shown.push_back(choice == 4 ? "private key loaded and valid"
                                          : "public key loaded and valid");
        }
        break;
      }
      case 6: {
        std::size_t members(src.chance(1, 12) ? 2 : 3 + src.draw(3)),
            needed(2 + src.draw(members - 1));
        if (src.chance(1, 6)) {
          std::size_t wrong(src.draw(2));
          word(std::to_string(members));
          word(std::to_string(wrong ? static_cast<int>(members) + 1 : 1));
          now.shown.push_back(wrong ? "required must be smaller" : "smallest required group is 2");
          failed(now);
          break;
        }
        word(std::to_string(members));
        word(std::to_string(needed));
        Group group;
        group.location = "group" + std::to_string(groups.size()) + "-";
        group.needed = needed;
        word(group.location);
        if (private_key < 0) {
          ++made;
          private_key = public_key = 100 + made;
          now.shown.push_back("Creating keys sucessful");
        }
        group.key = private_key;
        if (members == 2) {  // which is refused
          now.shown.push_back("failed: ");
          now.not_shown.push_back("is now ");
          break;
        }
        for (std::size_t i(0); i < members; ++i) {
          if (i && src.chance(1, 8)) {  // somebody else's name
            line(src.pick(group.names));
            type_password(password());
            now.shown.push_back("Error, are you sure you used a unique name");
          }
          group.names.push_back("member" + std::to_string(i));
          group.passwords.push_back(password());
          line(group.names.back());
          type_password(group.passwords.back());
          auto share(std::make_shared<Content>());
          share->kind = Content::kShare;
          share->key = static_cast<int>(groups.size());
          share->index = static_cast<int>(i);
          files[group.location + group.names.back() + ".keyfile"] =
              Encrypted(share, group.passwords.back());
          now.shown.push_back("for " + group.names.back());
        }
        groups.push_back(group);
        save(now, Content::kPublic);
        // A failure to save is not one to share.
        now.not_shown.clear();
        cs.label("group made");
        break;
      }
      case 7: {
        if (groups.empty() || src.chance(1, 10)) {
          line(src.pick(std::vector<std::string>{"0", "-1", "", "none"}));
          word("group0-");
          failed(now);
          break;
        }
        std::size_t which(src.index(groups.size()));
        const auto& group(groups[which]);
        std::vector<std::size_t> order;
        for (std::size_t i(0); i < group.names.size(); ++i)
          order.push_back(i);
        src.shuffle(order);
        std::size_t count(group.needed);
        if (src.chance(1, 4))
          count = 1 + src.draw(group.names.size());
        line(std::to_string(count));
        word(group.location);
        bool good(count >= group.needed), wrong_password(false);
        for (std::size_t i(0); i < count; ++i) {
          auto member(order[i]);
          auto name(group.location + group.names[member] + ".keyfile");
          if (src.chance(1, 8)) {  // nobody of the group
            word("stranger");
            type_password(password());
            now.shown.push_back("error reading file");
          }
          word(group.names[member]);
          auto entered(src.chance(1, 10) ? password() : group.passwords[member]);
          type_password(entered);
          auto from(content(name));
          // Anybody may have encrypted it again, decrypted it or put something else there.
          if (from->kind != Content::kEncrypted || from->bytes != entered) {
            wrong_password = true;
            break;
          }
          if (from->of->kind != Content::kShare || from->of->key != static_cast<int>(which) ||
              from->of->index != static_cast<int>(member))
            good = false;
        }
        if (wrong_password) {
          now.shown.push_back("failed: ");
          failed(now);
          cs.label("wrong password");
        } else if (!good) {
          failed(now);
          cs.label("too few of a group");
        } else {
          private_key = group.key;
          signed_in = true;
          now.shown.push_back("private key loaded and valid");
          ++worthwhile;
          cs.label("group signed in");
        }
        break;
      }
      case 8: {
        auto name(any_file());
        word(name);
        auto of(content(name));
        if (private_key < 0) {
          now.shown.push_back("private key invalid, aborting");
          failed(now);
        } else if (!of) {
          failed(now);
        } else if (private_key == 2) {  // too short a key for such a signature
          now.shown.push_back("failed: ");
          failed(now);
        } else {
          auto signature(std::make_shared<Content>());
          signature->kind = Content::kSignature;
          signature->key = private_key;
          signature->of = of;
          files[name + ".sig"] = signature;
          now.shown.push_back("Stored signature in \"" + name + ".sig\"");
          cs.label("signed");
        }
        break;
      }
      case 9: {
        std::vector<std::string> names;
        for (const auto& file : files)
          if (file.first.find(".sig") == file.first.size() - 4)
            names.push_back(file.first.substr(0, file.first.size() - 4));
        auto name(names.empty() || src.chance(1, 5) ? any_file() : src.pick(names));
        word(name);
        auto of(content(name)), signature(content(name + ".sig"));
        if (!signature) {
          now.shown.push_back("error reading file");
          failed(now);
        } else if (public_key < 0) {
          now.shown.push_back("public key invalid, aborting");
          failed(now);
        } else if (signature->kind == Content::kSignature && signature->key == public_key && of &&
                   Same(of, signature->of)) {
          now.shown.push_back("Signature valid");
          ++worthwhile;
          cs.label("signature valid");
        } else {
          failed(now);
          cs.label("signature invalid");
        }
        break;
      }
      case 10: {
        auto name(any_file());
        auto secret(password());
        // Encrypting again with the same password gives back what there was at first.
        std::set<std::string> taken;
        for (auto inner(content(name)); inner && inner->kind == Content::kEncrypted;
             inner = inner->of)
          taken.insert(inner->bytes);
        while (taken.count(secret))
          secret += "again";
        word(name);
        type_password(secret);
        auto of(content(name));
        if (!of) {
          now.shown.push_back("error reading file");
          failed(now);
        } else if (of->kind == Content::kBytes && of->bytes.empty()) {
          now.shown.push_back("failed: ");
          failed(now);
        } else {
          files[name] = Encrypted(of, secret);
          now.shown.push_back("File is now encrypted " + name);
          cs.label("encrypted");
        }
        break;
      }
      default: {
        auto name(file_of(Content::kEncrypted));
        auto of(content(name));
        auto secret(of && of->kind == Content::kEncrypted && src.chance(3, 4) ? of->bytes
                                                                             : password());
        word(name);
        type_password(secret);
        if (!of) {
          now.shown.push_back("error reading file");
          failed(now);
        } else if (of->kind != Content::kEncrypted || of->bytes != secret) {
          now.shown.push_back("failed: ");
          failed(now);
          cs.label("not decrypted");
        } else {
          files[name] = of->of;
          now.shown.push_back("File is now decrypted " + name);
          ++worthwhile;
          cs.label("decrypted");
        }
      }
    }
    expected.push_back(now);
  }
  if (!exited) {
    if (src.boolean()) {
      line("0");
      exited = true;
      expected.emplace_back();
    } else if (src.boolean()) {  // the input ends within a command
      auto last(src.pick(std::vector<std::string>{"3", "4", "6", "7", "8", "9", "10", "11"}));
      line(last);
      std::size_t more(src.draw(3));
      if (last == "10" || last == "11") {
        for (std::size_t i(0); i < more; ++i)
          line("file0");
      }
      partial = true;
    }
  }
  if (!exited)
    cs.label("end of input");
  auto result(tool::Run(typed, root, [] {
    try {
      return ToolMain();
    } catch (const harness::Exited& end) {
      return end.code;
    }
  }));
  REQUIRE(result.ended) << "does not end; shown last: "
                        << result.output.substr(result.output.size() -
                                                std::min<std::size_t>(result.output.size(), 300));
  REQUIRE(WIFEXITED(result.status)) << "ended by signal " << WTERMSIG(result.status);
  REQUIRE_EQ(WEXITSTATUS(result.status), 0);
  const std::string kMenu("MaidSafe Encryption Tool");
  std::vector<std::string> blocks;
  for (std::size_t at(result.output.find(kMenu)); at != std::string::npos;) {
    auto end(result.output.find(kMenu, at + 1));
    blocks.push_back(result.output.substr(at, end == std::string::npos ? end : end - at));
    at = end;
  }
  REQUIRE_EQ(blocks.size(), expected.size() + (exited ? 0 : 1)) << "times the menu was shown";
  for (std::size_t i(0); i < expected.size(); ++i) {
    auto block(blocks[i]);
    auto start(block.find("Exit the system;"));
    REQUIRE(start != std::string::npos);
    block.erase(0, start);
    for (const auto& text : expected[i].shown)
      REQUIRE(block.find(text) != std::string::npos)
          << "command " << i << ": not told \"" << text << "\" but " << block;
    for (const auto& text : expected[i].not_shown)
      REQUIRE(block.find(text) == std::string::npos)
          << "command " << i << ": told " << text << ": " << block;
  }
  // What there is now in the files.
  std::map<int, std::string> private_files, public_files;
  for (const auto& file : files) {
    if (!file.second)
      continue;
    auto bytes(Read(root / file.first));
    const auto& should(*file.second);
    switch (should.kind) {
      case Content::kBytes:
      case Content::kBadPrivate:
      case Content::kBadPublic:
        REQUIRE(bytes == should.bytes) << file.first << " has been changed";
        break;
      case Content::kPrivate:
      case Content::kPublic: {
        bool is_private(should.kind == Content::kPrivate);
        if (should.key < 100) {
          const auto& key(known[static_cast<std::size_t>(should.key)]);
          REQUIRE(bytes == (is_private ? key.private_bytes : key.public_bytes))
              << file.first << " does not contain key " << should.key;
        } else {
          auto& first((is_private ? private_files : public_files)[should.key]);
          if (first.empty())
            first = bytes;
          REQUIRE(bytes == first) << file.first << " does not contain the key made";
        }
        break;
      }
      case Content::kEncrypted:
        REQUIRE(should.of->kind != Content::kBytes || bytes != should.of->bytes)
            << file.first << " is not encrypted";
        break;
      case Content::kSignature:
        if (should.key < 100 && should.of->kind == Content::kBytes && !should.of->bytes.empty())
          REQUIRE(asymm::CheckSignature(
              asymm::PlainText(should.of->bytes), asymm::Signature(bytes),
              known[static_cast<std::size_t>(should.key)].keys.public_key))
              << file.first << " is not a signature";
        break;
      default:
        break;
    }
  }
  for (const auto& item : private_files) {
    if (!public_files.count(item.first))
      continue;
    auto private_part(asymm::DecodeKey(asymm::EncodedPrivateKey(item.second)));
    auto public_part(asymm::DecodeKey(asymm::EncodedPublicKey(public_files[item.first])));
    REQUIRE(asymm::CheckSignature(asymm::PlainText("text"),
                                  asymm::Sign(asymm::PlainText("text"), private_part), public_part))
        << "the keys saved do not belong together";
    cs.label("keys made and saved");
  }
  static_cast<void>(partial);
  if (worthwhile >= 2)
    cs.nontrivial();
}
