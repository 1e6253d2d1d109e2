// C20: secure strings and secure input strings, against maps of pieces.
#include "pbt.h"

#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include <openssl/evp.h>

#include "maidsafe/common/authentication/detail/secure_string.h"
#include "maidsafe/common/authentication/user_credentials.h"

namespace ms = maidsafe;
namespace md = maidsafe::authentication::detail;
namespace mc = maidsafe::crypto;
using md::SafeString;
using md::SecureString;
using Error = ms::CommonErrors;

namespace {

std::string Std(const SafeString& s) { return std::string(s.begin(), s.end()); }

std::string Chars(pbt::Src& src, std::size_t min, std::size_t max) {
  if (src.chance(2, 3))
    return src.text(min + src.size(max - min), "ab019 -");
  auto bytes(src.vec(min + src.size(max - min)));
  return std::string(bytes.begin(), bytes.end());
}

std::string Show(const std::string& s) { return pbt::Hex(s, 40); }

// The error thrown, as text; empty if none is.
std::string Result(const std::function<void()>& f) {
  try {
    f();
  } catch (const ms::maidsafe_error& e) {
    return e.code().message();
  } catch (const std::exception&) {
    return "another error";
  }
  return "";
}

std::string Name(Error error) { return ms::make_error_code(error).message(); }

template <typename Predicate, std::size_t Size>
class Checker {
 public:
  using Input = md::SecureInputString<Predicate, Size, md::KeywordTag>;

  Checker(pbt::Src& source, pbt::Case& test_case) : src(source), cs(test_case) {}

  void Run() {
    Start();
    std::size_t steps(1 + src.size(25));
    for (std::size_t i(0); i < steps; ++i) {
      cs.note() << "; ";
      switch (src.weighted({8, 6, 4, 1, 4, 2})) {
        case 0:
          Insert();
          break;
        case 1:
          Remove();
          break;
        case 2:
          Finalise();
          break;
        case 3:
          cs.note() << "clear";
          input->Clear();
          pieces.clear();
          finalised = false;
          break;
        case 4:
          Read();
          break;
        default:
          Valid();
      }
      REQUIRE_EQ(input->IsFinalised(), finalised);
      REQUIRE_EQ(input->IsInitialised(), finalised);
    }
    Read();
    Finalise();
    Read();
    if (changes > 1)
      cs.nontrivial();
  }

 private:
  static bool Rule(std::size_t size) { return Predicate()(size, Size); }

  bool Gaps() const {
    std::size_t index(0);
    for (const auto& piece : pieces) {
      if (piece.first != index++)
        return true;
    }
    return false;
  }

  // A finalised text becomes editable as single characters.
  void Edit() {
    if (!finalised)
      return;
    pieces.clear();
    for (std::size_t i(0); i < text.size(); ++i)
      pieces[i] = std::string(1, text[i]);
    finalised = false;
  }

  void Start() {
    if (src.chance(2, 3)) {
      input.reset(new Input);
      return;
    }
    std::string initial(Chars(src, 0, 8));
    cs.note() << "start with " << Show(initial);
    std::string error(Result([&] {
      if (src.boolean())
        input.reset(new Input(initial));
      else
        input.reset(new Input(SafeString(initial.begin(), initial.end())));
    }));
    if (Rule(initial.size())) {
      REQUIRE_EQ(error, std::string());
      finalised = true;
      text = initial;
    } else {
      REQUIRE_EQ(error, Name(Error::outside_of_bounds));
      input.reset(new Input);
    }
  }

  void Insert() {
    std::size_t position(src.draw(8));
    if (src.chance(1, 3))
      position = finalised ? text.size() : pieces.size();
    else if (src.chance(1, 20))
      position = static_cast<std::size_t>(src.u64() >> 1);
    std::string piece;
    Edit();
    ++changes;
    unsigned kind(static_cast<unsigned>(src.weighted({5, 2, 2})));
    if (kind == 0) {
      piece = Chars(src, 1, 1);
      cs.note() << "insert at " << position << " '" << Show(piece);
      input->Insert(position, piece[0]);
    } else {
      piece = Chars(src, 0, 6);
      cs.note() << "insert at " << position << " \"" << Show(piece);
      if (kind == 1)
        input->Insert(position, piece);
      else
        input->Insert(position, SafeString(piece.begin(), piece.end()));
    }
    // It and everything from its position on moves up to consecutive positions, if it's taken.
    auto it(pieces.find(position));
    if (it == pieces.end()) {
      pieces[position] = piece;
      return;
    }
    std::vector<std::string> rest{piece};
    for (auto i(it); i != pieces.end(); ++i)
      rest.push_back(i->second);
    pieces.erase(it, pieces.end());
    for (const auto& p : rest)
      pieces[position++] = p;
  }

  void Remove() {
    std::size_t position(src.draw(8)), length(src.chance(1, 8) ? src.draw(12) : 1 + src.draw(3));
    if (src.chance(1, 30))
      length = static_cast<std::size_t>(-1) - src.draw(2);
    cs.note() << "remove " << length << " at " << position;
    Edit();
    auto it(pieces.find(position));
    bool possible(it != pieces.end() && length != 0 &&
                  static_cast<std::size_t>(std::distance(it, pieces.end())) >= length);
    bool short_form(length == 1 && src.boolean());
    std::string error(Result([&] {
      if (short_form)
        input->Remove(position);
      else
        input->Remove(position, length);
    }));
    REQUIRE_EQ(error, possible ? std::string() : Name(Error::invalid_argument));
    if (!possible)
      return;
    ++changes;
    std::vector<std::string> rest;
    for (auto i(std::next(it, static_cast<std::ptrdiff_t>(length))); i != pieces.end(); ++i)
      rest.push_back(i->second);
    pieces.erase(it, pieces.end());
    for (const auto& p : rest)
      pieces[position++] = p;
  }

  void Finalise() {
    cs.note() << "finalise ";
    std::string error(Result([&] { input->Finalise(); }));
    if (finalised) {
      REQUIRE_EQ(error, std::string());
    } else if (!Rule(pieces.size())) {
      REQUIRE_EQ(error, Name(Error::outside_of_bounds));
    } else if (Gaps()) {
      REQUIRE_EQ(error, Name(Error::invalid_argument));
    } else {
      REQUIRE_EQ(error, std::string());
      text.clear();
      for (const auto& piece : pieces)
        text += piece.second;
      finalised = true;
      ++changes;
    }
  }

  void Read() {
    cs.note() << "read ";
    if (!finalised) {
      std::string refused(Name(Error::symmetric_encryption_error));
      REQUIRE_EQ(Result([&] { input->string(); }), refused);
      REQUIRE_EQ(Result([&] { input->template Hash<mc::SHA512>(); }), refused);
      REQUIRE_EQ(Result([&] { input->Value(); }), refused);
      return;
    }
    REQUIRE_EQ(Show(Std(input->string())), Show(text));
    std::vector<unsigned char> digest(64);
    EVP_Digest(text.data(), text.size(), digest.data(), nullptr, EVP_sha512(), nullptr);
    REQUIRE_EQ(Show(Std(input->template Hash<mc::SHA512>().string())),
               Show(std::string(digest.begin(), digest.end())));
    std::size_t value(0);
    bool thrown(false);
    try {
      value = std::stoul(text);
    } catch (const std::exception&) {
      thrown = true;
    }
    std::size_t actual(0);
    std::string error(Result([&] { actual = input->Value(); }));
    REQUIRE_EQ(error.empty(), !thrown);
    if (!thrown)
      REQUIRE_EQ(actual, value);
  }

  void Valid() {
    static const char* const kPatterns[] = {"[a-z]", "[0-9]", ".", "[[:space:]]", "^a"};
    const char* pattern(kPatterns[src.draw(5)]);
    cs.note() << "valid for " << pattern;
    boost::regex regex(pattern);
    bool expected(false);
    auto matches([&](const std::string& s) { return boost::regex_search(s, regex); });
    if (finalised) {
      expected = Rule(text.size());
      for (char c : text)
        expected = expected && matches(std::string(1, c));
    } else {
      expected = Rule(pieces.size()) && !Gaps();
      for (const auto& piece : pieces)
        expected = expected && matches(piece.second);
    }
    REQUIRE_EQ(input->IsValid(regex), expected);
  }

  pbt::Src& src;
  pbt::Case& cs;
  std::unique_ptr<Input> input;
  std::map<std::size_t, std::string> pieces;
  bool finalised = false;
  std::string text;
  unsigned changes = 0;
};

}  // namespace

PROPERTY(Credentials, (pbt::Options{4, 1})) {
  Checker<std::greater_equal<std::size_t>, 1>(src, cs).Run();
}

PROPERTY(OtherRules, (pbt::Options{2, 1})) {
  switch (src.draw(4)) {
    case 0:
      Checker<std::less_equal<std::size_t>, 5>(src, cs).Run();
      break;
    case 1:
      Checker<std::equal_to<std::size_t>, 3>(src, cs).Run();
      break;
    case 2:
      Checker<std::greater_equal<std::size_t>, 0>(src, cs).Run();
      break;
    default:
      Checker<std::greater<std::size_t>, 2>(src, cs).Run();
  }
}

PROPERTY(SecureStrings, (pbt::Options{2, 1})) {
  std::unique_ptr<SecureString> secure;
  std::string text;
  bool editable(true);
  if (src.chance(1, 3)) {
    text = Chars(src, 0, 200);
    cs.note() << "start with " << Show(text);
    if (src.boolean())
      secure.reset(new SecureString(text));
    else
      secure.reset(new SecureString(SafeString(text.begin(), text.end())));
    editable = false;
  } else {
    secure.reset(new SecureString);
  }
  std::size_t rounds(1 + src.draw(3)), appended(0);
  for (std::size_t round(0); round < rounds; ++round) {
    if (editable) {
      std::size_t count(src.size(8));
      for (std::size_t i(0); i < count; ++i) {
        std::string piece(Chars(src, 0, src.chance(1, 5) ? 300 : 12));
        ++appended;
        cs.note() << "; append " << Show(piece);
        switch (src.draw(3)) {
          case 0:
            secure->Append(piece);
            break;
          case 1:
            secure->Append(SafeString(piece.begin(), piece.end()));
            break;
          default:
            for (char c : piece)
              secure->Append(c);
        }
        text += piece;
      }
      secure->Finalise();
    }
    REQUIRE_EQ(Show(Std(secure->string())), Show(text));
    REQUIRE_EQ(Std(secure->string()) == text, true);
    cs.note() << "; clear";
    secure->Clear();
    text.clear();
    editable = true;
  }
  if (appended > 1)
    cs.nontrivial();
}

PROPERTY(Concatenation) {
  std::string a(Chars(src, 0, 40)), b(Chars(src, 0, 40));
  cs.note() << Show(a) << " + " << Show(b);
  if (!a.empty() && !b.empty())
    cs.nontrivial();
  SafeString first(a.begin(), a.end()), second(b.begin(), b.end());
  SecureString::Hash hash(mc::Hash<mc::SHA512>(first));
  std::string h(Std(hash.string()));
  REQUIRE(Std(md::operator+(first, second)) == a + b);
  REQUIRE(Std(hash + second) == h + b);
  REQUIRE(Std(second + hash) == b + h);
}
