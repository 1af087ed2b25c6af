// order, string and octet buffers through their C API, and what a pool accepts from the wire
#include "vex.h"
#include "prelude.h"
#include "casual/buffer/order.h"
#include "casual/buffer/string.h"
#include "casual/buffer/octet.h"
#include "common/buffer/pool.h"
#include <cstring>
#include <vector>
#include <string>

//@ bounds order: every history of up to 3 (quick) / 4 (thorough) additions over the 8 value kinds, every value bit, text and binary up to 3 bytes, then transport, and every history of reads

using namespace casual;
namespace buf = casual::common::buffer;

namespace
{
   constexpr int steps = VEX_TIER ? 4 : 3;

   enum Kind { k_bool, k_char, k_short, k_long, k_float, k_double, k_string, k_binary, k_count};

   struct Value
   {
      int kind;
      uint64_t bits = 0;
      char data[ 4] = {};
      long size = 0;
   };

   Value make_value()
   {
      Value v;
      v.kind = vex_choose( k_count, "kind");
      switch( v.kind)
      {
         case k_bool: v.bits = vex_sym( 1, "value"); break;
         case k_char: v.bits = vex_sym( 8, "value"); break;
         case k_short: v.bits = vex_sym( 16, "value"); break;
         case k_long: v.bits = vex_sym( 64, "value"); break;
         case k_float: v.bits = vex_sym( 32, "value"); break;
         case k_double: v.bits = vex_sym( 64, "value"); break;
         default:
            v.size = vex_choose( 4, "size");
            vex_bytes( v.data, v.size, "data");
            if( v.kind == k_string)
               for( long i = 0; i < v.size; ++i) vex_assume( v.data[ i] != 0);
      }
      return v;
   }

   int add( char** handle, const Value& v)
   {
      switch( v.kind)
      {
         case k_bool: return casual_order_add_bool( handle, v.bits);
         case k_char: return casual_order_add_char( handle, v.bits);
         case k_short: return casual_order_add_short( handle, v.bits);
         case k_long: return casual_order_add_long( handle, v.bits);
         case k_float: { float f; uint32_t b = v.bits; memcpy( &f, &b, 4); return casual_order_add_float( handle, f);}
         case k_double: { double f; memcpy( &f, &v.bits, 8); return casual_order_add_double( handle, f);}
         case k_string: return casual_order_add_string( handle, v.data);
         default: return casual_order_add_binary( handle, v.data, v.size);
      }
   }

   int get( const char* handle, int kind, Value& v)
   {
      v.kind = kind;
      int rc;
      switch( kind)
      {
         case k_bool: { bool x = false; rc = casual_order_get_bool( handle, &x); v.bits = x; return rc;}
         case k_char: { char x = 0; rc = casual_order_get_char( handle, &x); v.bits = ( unsigned char)x; return rc;}
         case k_short: { short x = 0; rc = casual_order_get_short( handle, &x); v.bits = ( unsigned short)x; return rc;}
         case k_long: { long x = 0; rc = casual_order_get_long( handle, &x); v.bits = x; return rc;}
         case k_float: { float x = 0; rc = casual_order_get_float( handle, &x); uint32_t b; memcpy( &b, &x, 4); v.bits = b; return rc;}
         case k_double: { double x = 0; rc = casual_order_get_double( handle, &x); memcpy( &v.bits, &x, 8); return rc;}
         case k_string:
         {
            const char* s = nullptr;
            rc = casual_order_get_string( handle, &s);
            if( rc == CASUAL_ORDER_SUCCESS) { v.size = strlen( s); memcpy( v.data, s, v.size > 4 ? 4 : v.size);}
            return rc;
         }
         default:
         {
            const char* s = nullptr;
            rc = casual_order_get_binary( handle, &s, &v.size);
            if( rc == CASUAL_ORDER_SUCCESS) memcpy( v.data, s, v.size > 4 ? 4 : v.size);
            return rc;
         }
      }
   }

   bool equal( const Value& a, const Value& b)
   {
      if( a.kind != b.kind) return false;
      if( a.kind < k_string) return a.bits == b.bits;
      return a.size == b.size && memcmp( a.data, b.data, a.size) == 0;
   }

   // as a message takes it out of one process and into the next
   const char* transfer( char* handle)
   {
      auto payload = buf::pool::holder().release( buf::handle::type{ handle}, 0);
      auto inserted = buf::pool::holder().adopt( std::move( payload));
      return inserted.raw();
   }
}

VEX_ENTRY( order_history)
{
   auto handle = buf::pool::holder().allocate( "CORDER", nullptr, vex_choose( 2, "initial") * 64).raw();
   std::vector< Value> added;
   const int count = vex_choose( steps + 1, "count");
   for( int i = 0; i < count; ++i)
   {
      added.push_back( make_value());
      vex_assert( add( &handle, added.back()) == CASUAL_ORDER_SUCCESS, "order: every addition succeeds");
   }
   long utilized = 0;
   vex_assert( casual_order_explore_buffer( handle, nullptr, &utilized, nullptr) == CASUAL_ORDER_SUCCESS, "order: explore");
   const char* reader = vex_choose( 2, "transfer") ? transfer( handle) : handle;
   for( auto& v : added)
   {
      Value got;
      vex_assert( get( reader, v.kind, got) == CASUAL_ORDER_SUCCESS, "order: every read of what was added succeeds");
      vex_assert( equal( v, got), "order: values come out in the order and with the content they were added");
      vex_observe( "bits", got.bits);
   }
   Value got;
   vex_assert( get( reader, k_long, got) == CASUAL_ORDER_OUT_OF_BOUNDS, "order: reading past the end is reported");
   vex_cover( "order read back");
}

//@ bounds order, mixed: every history of up to 4 (quick) / 5 (thorough) of: add (long, text of up to 2 bytes, binary of up to 2), read the next, reallocate (0, 12 or 200), start over with reading, hand over to another process

VEX_ENTRY( order_mixed)
{
   auto handle = buf::pool::holder().allocate( "CORDER", nullptr, 0).raw();
   std::vector< Value> content;
   size_t cursor = 0;
   for( int i = 0; i < steps + 1; ++i)
   {
      switch( vex_choose( 6, "operation"))
      {
         case 0:
         {
            Value v;
            v.kind = k_long + 0;
            switch( vex_choose( 3, "kind"))
            {
               case 0: v.bits = vex_sym( 64, "value"); break;
               case 1:
                  v.kind = k_string; v.size = vex_choose( 2, "size") * 2; vex_bytes( v.data, v.size, "data");
                  for( long i = 0; i < v.size; ++i) vex_assume( v.data[ i] != 0);
                  break;
               case 2: v.kind = k_binary; v.size = vex_choose( 2, "size") * 2; vex_bytes( v.data, v.size, "data"); break;
            }
            vex_assert( add( &handle, v) == CASUAL_ORDER_SUCCESS, "order: every addition succeeds");
            content.push_back( v);
            break;
         }
         case 1:
         {
            Value got;
            if( cursor < content.size())
            {
               vex_assert( get( handle, content[ cursor].kind, got) == CASUAL_ORDER_SUCCESS, "order: every read of what was added succeeds");
               vex_assert( equal( content[ cursor], got), "order: values come out in the order and with the content they were added");
               ++cursor;
            }
            else
            {
               long before = -1, after = -1;
               casual_order_explore_buffer( handle, nullptr, nullptr, &before);
               vex_assert( get( handle, k_long + vex_choose( 2, "kind") * ( k_binary - k_long), got) == CASUAL_ORDER_OUT_OF_BOUNDS, "order: reading past the end is reported");
               casual_order_explore_buffer( handle, nullptr, nullptr, &after);
               vex_assert( before == after, "order: a read that fails consumes nothing");
               vex_cover( "order: exhausted");
            }
            break;
         }
         case 2:
         {
            const long sizes[] = { 0, 12, 200};
            const long size = sizes[ vex_choose( 3, "size")];
            handle = buf::pool::holder().reallocate( buf::handle::type{ handle}, size).raw();
            long reserved = -1;
            vex_assert( casual_order_explore_buffer( handle, &reserved, nullptr, nullptr) == CASUAL_ORDER_SUCCESS && reserved >= size, "order: reallocation gives at least what is asked for");
            vex_cover( "order: reallocated");
            break;
         }
         case 3: vex_assert( casual_order_get_prepare( handle) == CASUAL_ORDER_SUCCESS, "order: rewind"); cursor = 0; break;
         case 4:
         {
            // what is received is read from the start
            auto payload = buf::pool::holder().release( buf::handle::type{ handle}, 0);
            handle = buf::pool::holder().adopt( std::move( payload)).raw();
            cursor = 0;
            break;
         }
         case 5: vex_assert( casual_order_add_prepare( handle) == CASUAL_ORDER_SUCCESS && casual_order_get_prepare( handle) == CASUAL_ORDER_SUCCESS, "order: reset"); content.clear(); cursor = 0; break;
      }
   }
   for( ; cursor < content.size(); ++cursor)
   {
      Value got;
      vex_assert( get( handle, content[ cursor].kind, got) == CASUAL_ORDER_SUCCESS, "order: every read of what was added succeeds");
      vex_assert( equal( content[ cursor], got), "order: values come out in the order and with the content they were added");
   }
}

//@ bounds string and octet: contents of 0 to 4 arbitrary bytes, into allocations of 0 to 8, replaced once, then transferred
//@ stubs log inactive

VEX_ENTRY( string_history)
{
   auto handle = buf::pool::holder().allocate( "CSTRING", nullptr, vex_choose( 3, "initial") * 4).raw();
   char text[ 5] = {};
   const int times = 1 + vex_choose( 2, "times");
   for( int t = 0; t < times; ++t)
   {
      memset( text, 0, sizeof text);
      const long size = vex_choose( 5, "size");
      vex_bytes( text, size, "text");
      for( long i = 0; i < size; ++i) vex_assume( text[ i] != 0);
      if( vex_choose( 2, "reallocate")) handle = buf::pool::holder().reallocate( buf::handle::type{ handle}, 8).raw();
      vex_assert( casual_string_set( &handle, text) == CASUAL_STRING_SUCCESS, "string: set succeeds");
   }
   const char* reader = vex_choose( 2, "transfer") ? transfer( handle) : handle;
   const char* got = nullptr;
   vex_assert( casual_string_get( reader, &got) == CASUAL_STRING_SUCCESS, "string: get succeeds");
   vex_assert( strcmp( got, text) == 0, "string: content is what was set last");
   long size = 0, used = 0;
   vex_assert( casual_string_explore_buffer( reader, &size, &used) == CASUAL_STRING_SUCCESS && used == ( long)strlen( text) + 1 && used <= size, "string: used size");
   vex_cover( "string read back");
}

VEX_ENTRY( octet_history)
{
   const char* subtypes[] = { nullptr, CASUAL_OCTET_XML, CASUAL_OCTET_JSON, CASUAL_OCTET_YAML};
   auto handle = buf::pool::holder().allocate( "COCTET", subtypes[ vex_choose( 4, "type")], vex_choose( 3, "initial") * 4).raw();
   char data[ 8] = {};
   long size = 0;
   const int times = 1 + vex_choose( 2, "times");
   for( int t = 0; t < times; ++t)
   {
      size = vex_choose( 5, "size");
      vex_bytes( data, size, "data");
      vex_assert( casual_octet_set( &handle, data, size) == CASUAL_OCTET_SUCCESS, "octet: set succeeds");
      if( vex_choose( 2, "reallocate"))
      {
         const long other = vex_choose( 3, "reallocated size") * 3;
         handle = buf::pool::holder().reallocate( buf::handle::type{ handle}, other).raw();
         for( ; size < other; ++size) data[ size] = 0;
         size = other;
      }
   }
   const char* reader = vex_choose( 2, "transfer") ? transfer( handle) : handle;
   const char* got = nullptr;
   long length = -1;
   vex_assert( casual_octet_get( reader, &got, &length) == CASUAL_OCTET_SUCCESS, "octet: get succeeds");
   vex_assert( length == size && memcmp( got, data, size) == 0, "octet: content is what was set last");
   vex_cover( "octet read back");
}
