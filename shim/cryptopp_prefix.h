// The code uses a name which newer versions of the library dropped.
#include <cryptopp/filters.h>
namespace CryptoPP {
typedef SignatureVerificationFilter VerifierFilter;
}
