// Privacy-free garbling: the same guarantee with one block per AND gate.
#include "common.hpp"
#define GEN emp::PrivacyFreeGen
#define EVA emp::PrivacyFreeEva
static const size_t PER_AND = 1;
static const bool LSB0 = true;
template <class T> static auto go_to(T &x, u64 pos, int) -> decltype(x.gid = (int64_t)pos) { return x.gid = (int64_t)pos; }
template <class T> static void go_to(T &, u64, long) {}
template <class T> static void go_to(T &x, u64 pos) { go_to(x, pos, 0); }
#include "garble_body.hpp"
