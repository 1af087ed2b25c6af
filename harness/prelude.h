// what every harness takes the place of: the log (inactive), the clock (a variable of the harness), generated uuids (distinct),
// the environment (empty). The definitions are weak: they stand in only where the source that has them is not encoded.
#pragma once
#include "vex.h"
#include "common/log.h"
#include "common/log/stream.h"
#include <chrono>
#include <cstring>

namespace casual::common::log
{
   __attribute__(( weak)) Stream::Stream( std::string) : std::ostream{ nullptr} {}
   __attribute__(( weak)) Stream::Stream() : std::ostream{ nullptr} {}
   __attribute__(( weak)) Stream::~Stream() {}
   namespace stream
   {
      namespace thread { __attribute__(( weak)) std::mutex Lock::m_mutex;}
      __attribute__(( weak)) Stream& get( std::string_view) { static Stream s; return s;}
      __attribute__(( weak)) bool active( std::string_view) noexcept { return false;}
      __attribute__(( weak)) void activate( std::string_view) noexcept {}
      __attribute__(( weak)) void deactivate( std::string_view) noexcept {}
      __attribute__(( weak)) void write( std::string_view, const std::string&) {}
      __attribute__(( weak)) void reopen() {}
      __attribute__(( weak)) void configure( const Configure&) {}
   }
}

namespace vexp
{
   // nanoseconds since epoch
   inline int64_t now = 1'000'000'000'000;
   inline uint64_t uuids = 0;
   inline unsigned random = 7;
   inline const char* (*env)( const char*) = nullptr;
}

extern "C"
{
   __attribute__(( used)) int64_t __weak__ZNSt6chrono3_V212system_clock3nowEv() { return vexp::now;}
   __attribute__(( used)) int64_t __weak__ZNSt6chrono3_V212steady_clock3nowEv() { return vexp::now;}
   __attribute__(( used)) void __weak_uuid_generate( unsigned char* out)
   {
      memset( out, 0, 16);
      auto n = ++vexp::uuids;
      for( int i = 0; i < 8; ++i) out[ 15 - i] = n >> ( 8 * i);
      out[ 0] = 0xca;
   }
   __attribute__(( used)) void __weak_uuid_copy( unsigned char* to, const unsigned char* from) { memcpy( to, from, 16);}
   __attribute__(( used)) char* __weak_getenv( const char* name) { return vexp::env ? const_cast< char*>( vexp::env( name)) : nullptr;}
   __attribute__(( used)) void __weak__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE( void*, const void*) {}
   __attribute__(( used)) void __weak__ZNSt13random_device7_M_finiEv( void*) {}
   __attribute__(( used)) unsigned __weak__ZNSt13random_device9_M_getvalEv( void*) { return vexp::random;}
   __attribute__(( used)) int __weak_getpid() { return 4242;}
   __attribute__(( used)) int __weak_sigaction( int, const void*, void*) { return 0;}
   __attribute__(( used)) int __weak_sigemptyset( void*) { return 0;}
   __attribute__(( used)) int __weak_sigfillset( void*) { return 0;}
   __attribute__(( used)) int __weak_sigaddset( void*, int) { return 0;}
   __attribute__(( used)) int __weak_sigdelset( void*, int) { return 0;}
   __attribute__(( used)) int __weak_sigismember( const void*, int) { return 0;}
   __attribute__(( used)) int __weak_pthread_sigmask( int, const void*, void*) { return 0;}
   __attribute__(( used)) int __weak_close( int) { return 0;}
}
