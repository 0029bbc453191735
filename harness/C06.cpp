// Half-gates: evaluating a garbled circuit yields the label of the right value.
#include "common.hpp"
#define GEN emp::HalfGateGen
#define EVA emp::HalfGateEva
static const size_t PER_AND = 2;
static const bool LSB0 = false;
// (if the key counter is not where it was, the far position is not reached and
// the case degenerates to an ordinary one)
template <class T> static auto go_to(T &x, u64 pos, int) -> decltype(x.mitccrh.renew_ks(pos * 2)) { x.mitccrh.renew_ks(pos * 2); }
template <class T> static void go_to(T &, u64, long) {}
template <class T> static void go_to(T &x, u64 pos) { go_to(x, pos, 0); }
#include "garble_body.hpp"
