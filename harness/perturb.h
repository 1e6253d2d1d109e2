// Random delays at lock operations, to reach more interleavings.  Link with
// -Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock.
#ifndef VERIF_HARNESS_PERTURB_H_
#define VERIF_HARNESS_PERTURB_H_

#include <cstdint>

namespace perturb {

// 0: none.  n: about one lock operation in 'n' is delayed, with delays decided by 'seed'.
void Set(unsigned one_in, std::uint64_t seed);
// A possible delay right here.
void Point();
void SleepMicros(unsigned micros);

}  // namespace perturb

#endif  // VERIF_HARNESS_PERTURB_H_
