// Intrinsics of the analysis (engine/models.inc). The drivers are never compiled to a program nor run:
// they only say from which calls, with which unknown values, the abstract interpretation starts.
#pragma once
#include <cstdint>
#include <span>
#include <string_view>
extern "C" {
long sa_int(long lo, long hi);        // any number between lo and hi
bool sa_bool();                       // any truth value
long sa_enum(long lo, long hi);       // any number between lo and hi, each considered separately
char* sa_buf(long size);              // an object of the given size with arbitrary bytes
void sa_check(bool, const char*);     // obligation
void sa_assume(bool);                 // restricts the quantification
void sa_reach(const char*);           // records that analysis got here
void sa_opaque(void*);                // the object and everything reachable from it become arbitrary
[[noreturn]] void sa_throw_any();     // throws an exception of any type
bool sa_definite(bool);               // whether it is surely true
void sa_modes(const void*, long size); // states where the object is in a different mode are not merged
void sa_shape(const void*, long size); // the same, also by what its pointers point to
void sa_shared(const void*, long size); // threads share the object: what is written needs a lock or atomic operations
void sa_guard(const void*, long size, const void* lock); // needs this lock
void sa_unlocked();                   // obligation: no lock is held
bool sa_locked();                     // whether any lock is held
void sa_dump(...);
}
namespace SA {
constexpr long MaxSize = 1l << 30;
struct Arbitrary { // any byte sequence
	long size;
	char* data;
	Arbitrary(long min = 0, long max = MaxSize) : size(sa_int(min, max)), data(sa_buf(size)) {}
	operator std::string_view() const { return {data, size_t(size)}; }
	operator std::span<char>() const { return {data, size_t(size)}; }
	operator std::span<const char>() const { return {data, size_t(size)}; }
};
}
