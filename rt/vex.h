// harness interface. Under the engine these are intrinsics; natively (replay) they read a recorded input file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C"
{
   // arbitrary value of `bits` bits
   uint64_t vex_sym( uint64_t bits, const char* name);
   // arbitrary value in [lo, hi] (signed 64)
   int64_t vex_range( int64_t lo, int64_t hi, const char* name);
   // every value in [0, n): one path each
   uint64_t vex_choose( uint64_t n, const char* name);
   // n arbitrary bytes
   void vex_bytes( void* p, uint64_t n, const char* name);
   void vex_assume_( uint64_t cond);
   void vex_assert_( uint64_t cond, const char* name);
   void vex_cover( const char* name);
   void vex_observe_( const char* name, uint64_t value);
   uint64_t vex_concretize( uint64_t value);
   uint64_t vex_is_symbolic( uint64_t value);
   void vex_discard() __attribute__((noreturn));
   void vex_exit() __attribute__((noreturn));
   void vex_print( const char* name, uint64_t value);
   void vex_unmodelled( const char* name) __attribute__((noreturn));
}
#define vex_assume( c) vex_assume_( ( c) ? 1 : 0)
#define vex_assert( c, name) vex_assert_( ( c) ? 1 : 0, name)
#define vex_observe( name, v) vex_observe_( name, ( uint64_t)( v))
#define VEX_ENTRY( name) extern "C" void vex_entry_##name()
#define VEX_ENTRY_THOROUGH( name) extern "C" void vex_entry_##name()
