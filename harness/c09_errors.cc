// C09: errors.
#include "pbt.h"

#include <algorithm>
#include <cctype>
#include <map>
#include <set>

#include "maidsafe/common/error.h"
#include "maidsafe/common/serialisation/serialisation.h"

namespace ms = maidsafe;

namespace {

struct Entry {
  const std::error_category* category;
  int number;  // of the category
  int value;
  int wire;  // as other programs, and earlier versions of this one, know it
  std::string name, word;  // the text contains this word
  int errc;                // the standard condition it mirrors, or 0
  std::error_code code;
  std::error_condition condition;
  std::function<void()> thrower;
  std::function<ms::maidsafe_error()> make;
};

std::vector<Entry>& Table() {
  static std::vector<Entry> table;
  return table;
}

template <typename Enum>
void Add(const std::error_category& (*get)(), int number, Enum e, const char* name,
         const char* word, int errc) {
  Entry entry;
  entry.category = &get();
  entry.number = number;
  entry.value = static_cast<int>(e);
  // Numbered in the order of the table, from 0 for success and from 1 in all other categories.
  int before(0);
  for (const auto& other : Table())
    before += other.number == number;
  entry.wire = -100000 * number - before - (number == 1 ? 0 : 1);
  entry.name = name;
  entry.word = word;
  entry.errc = errc;
  entry.code = ms::make_error_code(e);
  entry.condition = ms::make_error_condition(e);
  entry.thrower = [e] { BOOST_THROW_EXCEPTION(ms::MakeError(e)); };
  entry.make = [e] { return ms::maidsafe_error(ms::MakeError(e)); };
  Table().push_back(entry);
}

#define C(e, word, errc) \
  Add(&ms::GetCommonCategory, 1, ms::CommonErrors::e, #e, word, static_cast<int>(errc))
#define A(e, word, errc) \
  Add(&ms::GetAsymmCategory, 2, ms::AsymmErrors::e, #e, word, static_cast<int>(errc))
#define P(e, word, errc) \
  Add(&ms::GetPassportCategory, 3, ms::PassportErrors::e, #e, word, static_cast<int>(errc))
#define E(e, word, errc) \
  Add(&ms::GetEncryptCategory, 4, ms::EncryptErrors::e, #e, word, static_cast<int>(errc))
#define R(e, word, errc) \
  Add(&ms::GetRoutingCategory, 5, ms::RoutingErrors::e, #e, word, static_cast<int>(errc))
#define N(e, word, errc) \
  Add(&ms::GetNfsCategory, 6, ms::NfsErrors::e, #e, word, static_cast<int>(errc))
#define D(e, word, errc) \
  Add(&ms::GetDriveCategory, 7, ms::DriveErrors::e, #e, word, static_cast<int>(errc))
#define V(e, word, errc) \
  Add(&ms::GetVaultCategory, 8, ms::VaultErrors::e, #e, word, static_cast<int>(errc))
#define M(e, word, errc) \
  Add(&ms::GetVaultManagerCategory, 9, ms::VaultManagerErrors::e, #e, word, static_cast<int>(errc))
#define K(e, word, errc) \
  Add(&ms::GetApiCategory, 10, ms::ApiErrors::e, #e, word, static_cast<int>(errc))

void Fill() {
  if (!Table().empty())
    return;
  C(success, "success", 0);
  C(pending_result, "pending", 0);
  C(unknown, "unknown", 0);
  C(null_pointer, "null", std::errc::invalid_argument);
  C(invalid_identity, "id", std::errc::invalid_argument);
  C(invalid_key_size, "key", std::errc::invalid_argument);
  C(outside_of_bounds, "bounds", std::errc::invalid_argument);
  C(invalid_argument, "argument", std::errc::invalid_argument);
  C(invalid_conversion, "conver", 0);
  C(file_too_large, "large", std::errc::file_too_large);
  C(uninitialised, "uninitialised", 0);
  C(already_initialised, "already", 0);
  C(hashing_error, "hash", 0);
  C(symmetric_encryption_error, "encryption", 0);
  C(symmetric_decryption_error, "decryption", 0);
  C(compression_error, "compress", 0);
  C(uncompression_error, "uncompress", 0);
  C(cannot_invoke_from_this_thread, "thread", std::errc::operation_not_permitted);
  C(cannot_exceed_limit, "limit", 0);
  C(unable_to_handle_request, "request", std::errc::not_supported);
  C(filesystem_io_error, "filesystem", std::errc::io_error);
  C(no_such_element, "element", 0);
  C(serialisation_error, "serialis", 0);
  C(parsing_error, "pars", 0);
  C(not_a_directory, "directory", std::errc::not_a_directory);
  C(db_busy, "lock", 0);
  C(db_not_present, "present", 0);
  C(db_error, "database", 0);
  C(defaulted, "default", 0);
  A(keys_generation_error, "generat", 0);
  A(keys_serialisation_error, "serialis", 0);
  A(keys_parse_error, "pars", 0);
  A(invalid_private_key, "private", 0);
  A(invalid_public_key, "public", 0);
  A(data_empty, "data", std::errc::invalid_argument);
  A(invalid_file, "file", std::errc::invalid_argument);
  A(invalid_signature, "signature", std::errc::invalid_argument);
  A(signature_empty, "empty", std::errc::invalid_argument);
  A(encryption_error, "encryption", 0);
  A(decryption_error, "decryption", 0);
  A(signing_error, "signing", std::errc::invalid_argument);
  P(id_already_exists, "exists", 0);
  E(bad_sequence, "sequence", 0);
  E(no_data, "data", 0);
  E(invalid_encryption_version, "version", 0);
  E(failed_to_write, "write", 0);
  E(failed_to_prepare_for_write, "prepare", 0);
  E(failed_to_get_chunk, "chunk", 0);
  E(failed_to_flush, "flush", 0);
  E(failed_to_decrypt, "decrypt", 0);
  E(failed_to_read, "read", 0);
  E(encryptor_closed, "closed", 0);
  R(timed_out, "timed out", std::errc::timed_out);
  R(timer_cancelled, "cancel", 0);
  R(not_in_range, "range", 0);
  R(not_connected, "connected", 0);
  N(failed_to_get_data, "data", 0);
  N(timed_out, "timed out", std::errc::timed_out);
  D(no_drive_letter_available, "letter", 0);
  D(failed_to_mount, "mount", 0);
  D(permission_denied, "denied", std::errc::permission_denied);
  D(no_such_file, "no such", 0);
  D(file_exists, "exists", std::errc::file_exists);
  D(driver_not_installed, "installed", 0);
  V(failed_to_join_network, "join", 0);
  V(failed_to_handle_request, "handle", 0);
  V(operation_not_supported, "supported", std::errc::operation_not_supported);
  V(permission_denied, "denied", std::errc::permission_denied);
  V(no_such_account, "account", 0);
  V(low_space, "low", 0);
  V(not_enough_space, "enough space", 0);
  V(unique_data_clash, "unique", 0);
  V(data_available_not_given, "not provided", 0);
  V(account_already_exists, "account", 0);
  V(data_already_exists, "already", 0);
  V(too_few_entries_to_resolve, "resolve", 0);
  M(connection_not_found, "not found", std::errc::not_connected);
  M(failed_to_connect, "connect", std::errc::connection_refused);
  M(failed_to_listen, "listen", 0);
  M(connection_aborted, "abort", std::errc::connection_aborted);
  M(ipc_message_too_large, "large", std::errc::message_size);
  M(timed_out, "timed out", std::errc::timed_out);
  M(unvalidated_client, "client", 0);
  M(vault_exited_with_error, "exited", 0);
  M(vault_terminated, "terminat", 0);
  K(kPasswordFailure, "password", 0);
}
#undef C
#undef A
#undef P
#undef E
#undef R
#undef N
#undef D
#undef V
#undef M
#undef K

std::string Lower(std::string s) {
  std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return std::tolower(c); });
  return s;
}

int Wire(const Entry& e) { return e.wire; }

const std::size_t kEntries(90);

void CheckRoundTrip(const ms::maidsafe_error& e, const Entry& entry) {
  REQUIRE(e.code() == entry.code) << entry.name << " became " << e.code().category().name() << ":"
                                  << e.code().value();
  REQUIRE(&e.code().category() == entry.category) << entry.name;
  REQUIRE_EQ(e.code().message(), entry.code.message()) << entry.name;
  REQUIRE_EQ(std::string(e.what()), entry.code.message()) << entry.name;
}

}  // namespace

// Every defined error, against every other.
PROPERTY(Defined, pbt::Options{1, 1, false, kEntries}) {
  Fill();
  std::size_t i(static_cast<std::size_t>(src.draw(kEntries)));
  if (i >= Table().size())
    throw pbt::Discard();
  const Entry& entry(Table()[i]);
  cs.note() << entry.category->name() << ": " << entry.name << " '" << entry.code.message() << "'";
  cs.nontrivial();
  REQUIRE(entry.code.category() == *entry.category) << entry.name;
  REQUIRE_EQ(entry.code.value(), entry.value);
  std::string message(entry.code.message());
  REQUIRE(!message.empty());
  REQUIRE(Lower(message).find(entry.word) != std::string::npos) << entry.name << ": " << message;
  std::string unknown(entry.category->message(77777));
  if (entry.name != "unknown")
    REQUIRE(message != unknown) << entry.name << " has no text";
  // Integers and serialisation.
  auto error(entry.make());
  CheckRoundTrip(error, entry);
  int wire(ms::ErrorToInt(error));
  REQUIRE_EQ(wire, Wire(entry)) << entry.name;
  CheckRoundTrip(ms::IntToError(wire), entry);
  auto serialised(ms::Serialise(error));
  CheckRoundTrip(ms::Parse<ms::maidsafe_error>(serialised), entry);
  REQUIRE(ms::Serialise(ms::IntToError(wire)) == serialised);
  // Thrown, as anything it is.
  try {
    entry.thrower();
    REQUIRE(false);
  } catch (const ms::maidsafe_error& e) {
    CheckRoundTrip(e, entry);
  }
  try {
    entry.thrower();
    REQUIRE(false);
  } catch (const std::system_error& e) {
    REQUIRE(e.code() == entry.code);
  }
  // Against all others.
  for (const auto& other : Table()) {
    bool same(&other == &entry);
    REQUIRE_EQ(entry.code == other.code, same) << entry.name << " and " << other.name;
    REQUIRE_EQ(Wire(entry) == ms::ErrorToInt(other.make()), same);
    REQUIRE_EQ(entry.code == other.condition, same) << entry.name << " is condition " << other.name;
    if (entry.category == other.category)
      REQUIRE_EQ(message == other.code.message(), same) << entry.name << " and " << other.name;
    else
      REQUIRE(entry.category != other.category &&
              std::string(entry.category->name()) != other.category->name());
    if (entry.category == other.category)
      REQUIRE_EQ(entry.number, other.number);
  }
  // Standard conditions.
  for (int c(1); c < 140; ++c) {
    std::error_condition standard(c, std::generic_category());
    REQUIRE_EQ(entry.code == standard, c == entry.errc) << entry.name << " and errc " << c;
  }
}

// Integers which may or may not denote an error.
PROPERTY(Integers) {
  Fill();
  std::int64_t wide(0);
  switch (src.draw(4)) {
    case 0:
      wide = -(src.range(-1, 12) * 100000 + src.range(-2, 40));
      break;
    case 1:
      wide = -(src.range(1, 10) * 100000 + src.range(0, 99999));
      break;
    case 2:
      wide = static_cast<std::int32_t>(src.u64());
      break;
    default:
      wide = src.boolean() ? std::numeric_limits<std::int32_t>::max() - src.range(0, 5)
                           : std::numeric_limits<std::int32_t>::min() + src.range(1, 6);
  }
  std::int32_t value(static_cast<std::int32_t>(wide));
  cs.note() << value;
  const Entry* defined(nullptr);
  for (const auto& entry : Table())
    if (Wire(entry) == value)
      defined = &entry;
  if (!defined)
    cs.nontrivial();
  bool threw(false);
  ms::maidsafe_error result;
  try {
    result = ms::IntToError(value);
  } catch (const ms::maidsafe_error& e) {
    threw = true;
    REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::parsing_error));
  }
  if (defined) {
    REQUIRE(!threw) << value;
    CheckRoundTrip(result, *defined);
    cs.label("defined");
  } else if (!threw) {
    cs.label("unknown code of a known category");
    for (const auto& entry : Table())
      REQUIRE(result.code() != entry.code) << value << " taken for " << entry.name;
    REQUIRE_EQ(ms::ErrorToInt(result), value);
    REQUIRE_EQ(result.code().message(), result.code().category().message(77777));
    REQUIRE(Lower(result.code().message()).find("unknown") != std::string::npos);
  } else {
    cs.label("refused");
  }
}

// Own text given when the error is made; foreign errors.
PROPERTY(OwnText) {
  Fill();
  const Entry& entry(src.pick(Table()));
  std::string text(src.text(1 + src.draw(20), "abcdefgh XYZ%"));
  cs.note() << entry.name << " with '" << text << "'";
  cs.nontrivial();
  ms::maidsafe_error a(entry.code, text), b(entry.value, *entry.category, text.c_str());
  for (const auto& e : {a, b}) {
    REQUIRE(e.code() == entry.code);
    REQUIRE(std::string(e.what()).find(text) != std::string::npos) << e.what();
    CheckRoundTrip(ms::Parse<ms::maidsafe_error>(ms::Serialise(e)), entry);
  }
  // An error of a foreign category has no integer.
  ms::maidsafe_error foreign(static_cast<int>(src.draw(200)),
                             src.boolean() ? std::generic_category() : std::system_category());
  try {
    ms::ErrorToInt(foreign);
    REQUIRE(false) << "no error";
  } catch (const ms::maidsafe_error& e) {
    REQUIRE(e.code() == ms::make_error_code(ms::CommonErrors::serialisation_error));
  }
}
