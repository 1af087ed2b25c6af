// a payload that comes from the wire is whatever the sender made it: no operation on it reads or writes outside of it
#include "vex.h"
#include "prelude.h"
#include "casual/buffer/field.h"
#include "casual/buffer/order.h"
#include "casual/buffer/string.h"
#include "casual/buffer/octet.h"
#include "common/buffer/pool.h"
#include <cstring>
#include <vector>
#include <string>

//@ bounds field payloads of 0 to 34 (quick) / 50 (thorough) arbitrary bytes (lengths around every header and value boundary), one (quick) / two (thorough) operations on any occurrence that is there; order payloads of 0 to 12 arbitrary bytes with up to 3 reads of any kind; string payloads of 0 to 6 arbitrary bytes; octet 0 to 4
//@ stubs log inactive

using namespace casual;
namespace buf = casual::common::buffer;

namespace
{
   char* wire( const char* type, long size)
   {
      platform::binary::type data( size);
      vex_bytes( data.data(), size, "payload");
      data.shrink_to_fit();
      const bool adopt = vex_choose( 2, "adopt");
      try
      {
         buf::Payload payload{ std::string( type), std::move( data)};
         if( adopt) return buf::pool::holder().adopt( std::move( payload)).raw();
         return std::get< 0>( buf::pool::holder().insert( std::move( payload))).raw();
      }
      catch( ...)
      {
         vex_cover( "refused");
         return nullptr;
      }
   }
   char sink;
   void use( const char* p, long n) { for( long i = 0; i < n; ++i) sink ^= p[ i];}
}

VEX_ENTRY( field_payload)
{
   const long sizes[] = { 0, 1, 15, 16, 17, 18, 24, 32, 33, 34, 8, 25, 40, 50};
   const long size = sizes[ vex_choose( VEX_TIER ? 14 : 10, "size")];
   auto handle = wire( "CFIELD/", size);
   if( ! handle) return;
   vex_cover( "field accepted");
   long id = CASUAL_FIELD_NO_ID, index = 0;
   if( vex_choose( 2, "skip")) casual_field_next( handle, &id, &index);
   for( int i = 0; i < ( VEX_TIER ? 2 : 1) && casual_field_next( handle, &id, &index) == CASUAL_FIELD_SUCCESS; ++i)
   {
      switch( vex_choose( 10, "operation"))
      {
         case 0: { short x = 0; casual_field_get_short( handle, id, index, &x); break;}
         case 1: { long x = 0; casual_field_get_long( handle, id, index, &x); break;}
         case 2: { char x = 0; casual_field_get_char( handle, id, index, &x); break;}
         case 3: { double x = 0; casual_field_get_double( handle, id, index, &x); break;}
         case 4: { const char* s = nullptr; if( casual_field_get_string( handle, id, index, &s) == CASUAL_FIELD_SUCCESS) { use( s, strlen( s) + 1); vex_cover( "string got");} break;}
         case 5: { const char* s = nullptr; long n = 0; if( casual_field_get_binary( handle, id, index, &s, &n) == CASUAL_FIELD_SUCCESS) { vex_assert( n >= 0, "field: no negative size"); use( s, n); vex_cover( "binary got");} break;}
         case 6: { char target[ 8]; long n = 8; casual_field_get_value( handle, id, index, target, &n); break;}
         case 7: casual_field_remove_occurrence( handle, id, index); id = CASUAL_FIELD_NO_ID; break;
         case 8: casual_field_set_string( &handle, id, index, "x"); break;
         default: casual_field_set_long( &handle, id, index, 1); break;
      }
   }
   auto payload = buf::pool::holder().release( buf::handle::type{ handle}, 0);
   vex_observe( "size", payload.data.size());
}

VEX_ENTRY( order_payload)
{
   const long size = vex_choose( 13, "size");
   auto handle = wire( "CORDER/", size);
   if( ! handle) return;
   long before = 0;
   for( int i = 0; i < 3; ++i)
   {
      int rc;
      switch( vex_choose( 8, "operation"))
      {
         case 0: { short x = 0; rc = casual_order_get_short( handle, &x); break;}
         case 1: { long x = 0; rc = casual_order_get_long( handle, &x); break;}
         case 2: { char x = 0; rc = casual_order_get_char( handle, &x); break;}
         case 3: { double x = 0; rc = casual_order_get_double( handle, &x); break;}
         case 4: { float x = 0; rc = casual_order_get_float( handle, &x); break;}
         case 5: { bool x = false; rc = casual_order_get_bool( handle, &x); break;}
         case 6: { const char* s = nullptr; rc = casual_order_get_string( handle, &s); if( rc == CASUAL_ORDER_SUCCESS) { use( s, strlen( s) + 1); vex_cover( "order string got");} break;}
         default: { const char* s = nullptr; long n = 0; rc = casual_order_get_binary( handle, &s, &n); if( rc == CASUAL_ORDER_SUCCESS) { vex_assert( n >= 0, "order: no negative size"); use( s, n); vex_cover( "order binary got");} break;}
      }
      long utilized = 0, consumed = 0;
      vex_assert( casual_order_explore_buffer( handle, nullptr, &utilized, &consumed) == CASUAL_ORDER_SUCCESS, "order: explore");
      vex_assert( consumed <= utilized, "order: the cursor stays within the buffer");
      vex_assert( rc == CASUAL_ORDER_SUCCESS ? consumed > before : consumed == before, "order: a read moves the cursor forward, a failed one leaves it");
      before = consumed;
   }
}

VEX_ENTRY( string_payload)
{
   const long size = vex_choose( 7, "size");
   auto handle = wire( "CSTRING/", size);
   if( ! handle) return;
   const char* s = nullptr;
   long reserved = 0, used = 0;
   if( casual_string_get( handle, &s) == CASUAL_STRING_SUCCESS) { use( s, strlen( s) + 1); vex_cover( "string read");}
   if( casual_string_explore_buffer( handle, &reserved, &used) == CASUAL_STRING_SUCCESS) vex_assert( used <= reserved, "string: used within reserved");
   try
   {
      auto payload = buf::pool::holder().release( buf::handle::type{ handle}, 0);
      vex_assert( ( long)payload.data.size() <= size, "string: what is sent is part of the buffer");
   }
   catch( ...) {}
}

VEX_ENTRY( octet_payload)
{
   const long size = vex_choose( 5, "size");
   const char* types[] = { "COCTET/", "COCTET/XML", "COCTET/JSON", "COCTET/YAML"};
   auto handle = wire( types[ vex_choose( 4, "type")], size);
   if( ! handle) return;
   const char* data = nullptr;
   long n = -1;
   vex_assert( casual_octet_get( handle, &data, &n) == CASUAL_OCTET_SUCCESS && n == size, "octet: size");
   use( data, n);
}
