// fielded buffers: after any history of operations a buffer holds exactly what the history says, before and after transport
#include "vex.h"
#include "prelude.h"
#include "casual/buffer/field.h"
#include "common/buffer/pool.h"
#include <cstring>
#include <vector>
#include <string>
#include <map>

//@ bounds every history of up to 3 (quick) / 4 (thorough) operations (add, set, put, remove occurrence, remove id, remove all, copy, reallocate) over 4 (quick) / 5 (thorough) ids of 4 types (string, binary, long, short, another string), values: every bit of the number, texts and binaries of 0 or 2 (thorough: 0 to 2) arbitrary bytes; index -1 to 2; then every read, iteration, and the same after release and adopt
//@ stubs log inactive

using namespace casual;
namespace buf = casual::common::buffer;

namespace
{
   constexpr int steps = VEX_TIER ? 4 : 3;
   constexpr long B = CASUAL_FIELD_TYPE_BASE;
   const long ids[] = { CASUAL_FIELD_STRING * B + 1, CASUAL_FIELD_BINARY * B + 1, CASUAL_FIELD_LONG * B + 7, CASUAL_FIELD_SHORT * B + 1, CASUAL_FIELD_STRING * B + 2};
   constexpr int id_count = VEX_TIER ? 5 : 4;

   struct Value
   {
      long number = 0;
      char data[ 3] = {};
      long size = 0;
   };
   bool text( long id) { return id / B == CASUAL_FIELD_STRING;}
   bool binary( long id) { return id / B == CASUAL_FIELD_BINARY;}

   Value make( long id)
   {
      Value v;
      if( text( id) || binary( id))
      {
         v.size = VEX_TIER ? vex_choose( 3, "size") : 2 * vex_choose( 2, "size");
         vex_bytes( v.data, v.size, "data");
         if( text( id)) for( long i = 0; i < v.size; ++i) vex_assume( v.data[ i] != 0);
      }
      else if( id / B == CASUAL_FIELD_LONG) v.number = vex_sym( 64, "number");
      else v.number = ( short)vex_sym( 16, "number");
      return v;
   }

   using Model = std::map< long, std::vector< Value>>;

   void verify( const char* handle, const Model& model)
   {
      long total = 0;
      for( auto id : ids)
      {
         auto found = model.find( id);
         long expected = found == model.end() ? 0 : found->second.size();
         long count = -1;
         vex_assert( casual_field_occurrences_of_id( handle, id, &count) == CASUAL_FIELD_SUCCESS && count == expected, "field: number of occurrences");
         total += expected;
         for( long i = 0; i < expected; ++i)
         {
            auto& v = found->second[ i];
            if( text( id))
            {
               const char* s = nullptr;
               vex_assert( casual_field_get_string( handle, id, i, &s) == CASUAL_FIELD_SUCCESS, "field: get string");
               vex_assert( memcmp( s, v.data, v.size + 1) == 0, "field: string content");
            }
            else if( binary( id))
            {
               const char* s = nullptr;
               long size = -1;
               vex_assert( casual_field_get_binary( handle, id, i, &s, &size) == CASUAL_FIELD_SUCCESS, "field: get binary");
               vex_assert( size == v.size && memcmp( s, v.data, v.size) == 0, "field: binary content");
               long explored = -1;
               vex_assert( casual_field_explore_value( handle, id, i, &explored) == CASUAL_FIELD_SUCCESS && explored == v.size, "field: explored size");
            }
            else if( id / B == CASUAL_FIELD_LONG)
            {
               long n = 0;
               vex_assert( casual_field_get_long( handle, id, i, &n) == CASUAL_FIELD_SUCCESS, "field: get long");
               vex_assert( n == v.number, "field: long content");
               vex_observe( "long", n);
            }
            else
            {
               short n = 0;
               vex_assert( casual_field_get_short( handle, id, i, &n) == CASUAL_FIELD_SUCCESS, "field: get short");
               vex_assert( n == v.number, "field: short content");
            }
         }
         // nothing beyond
         vex_assert( casual_field_explore_value( handle, id, expected, nullptr) == CASUAL_FIELD_OUT_OF_BOUNDS, "field: no occurrence beyond the last");
      }
      long all = -1;
      vex_assert( casual_field_occurrences_in_buffer( handle, &all) == CASUAL_FIELD_SUCCESS && all == total, "field: total number of occurrences");
      // iteration visits every occurrence once
      long id = CASUAL_FIELD_NO_ID, index = 0, visited = 0;
      long last_id = -1, last_index = -1;
      while( casual_field_next( handle, &id, &index) == CASUAL_FIELD_SUCCESS)
      {
         auto found = model.find( id);
         vex_assert( found != model.end() && index < ( long)found->second.size(), "field: iteration visits what is there");
         vex_assert( id == last_id ? index == last_index + 1 : id > last_id && index == 0, "field: iteration visits once, in order");
         last_id = id; last_index = index;
         if( ++visited > total) break;
      }
      vex_assert( visited == total, "field: iteration visits all");
   }

   int add( char** handle, long id, const Value& v)
   {
      if( text( id)) return casual_field_add_string( handle, id, v.data);
      if( binary( id)) return casual_field_add_binary( handle, id, v.data, v.size);
      if( id / B == CASUAL_FIELD_LONG) return casual_field_add_long( handle, id, v.number);
      return casual_field_add_short( handle, id, v.number);
   }
   int set( char** handle, long id, long index, const Value& v)
   {
      if( text( id)) return casual_field_set_string( handle, id, index, v.data);
      if( binary( id)) return casual_field_set_binary( handle, id, index, v.data, v.size);
      if( id / B == CASUAL_FIELD_LONG) return casual_field_set_long( handle, id, index, v.number);
      return casual_field_set_short( handle, id, index, v.number);
   }
   int put( char** handle, long id, long index, const Value& v)
   {
      if( text( id)) return casual_field_put_value( handle, id, index, v.data, 0);
      if( binary( id)) return casual_field_put_value( handle, id, index, v.data, v.size);
      short s = v.number;
      return casual_field_put_value( handle, id, index, id / B == CASUAL_FIELD_LONG ? ( const void*)&v.number : &s, 0);
   }

   void step( char*& handle, Model& model)
   {
      const int op = vex_choose( 8, "operation");
      const long id = op <= 4 ? ids[ vex_choose( id_count, "id")] : 0;
      switch( op)
      {
         case 0:
         {
            auto v = make( id);
            vex_assert( add( &handle, id, v) == CASUAL_FIELD_SUCCESS, "field: addition succeeds");
            model[ id].push_back( v);
            break;
         }
         case 1:
         {
            const long index = vex_choose( 3, "index");
            auto v = make( id);
            auto found = model.find( id);
            auto rc = set( &handle, id, index, v);
            if( found != model.end() && index < ( long)found->second.size())
            {
               vex_assert( rc == CASUAL_FIELD_SUCCESS, "field: setting an existing occurrence succeeds");
               found->second[ index] = v;
               vex_cover( "set existing");
            }
            else vex_assert( rc == CASUAL_FIELD_OUT_OF_BOUNDS, "field: setting a missing occurrence is reported");
            break;
         }
         case 2:
         {
            const long index = ( long)vex_choose( 4, "index") - 1;
            auto v = make( id);
            vex_assert( put( &handle, id, index, v) == CASUAL_FIELD_SUCCESS, "field: put succeeds");
            auto& list = model[ id];
            if( index < 0) list.push_back( v);
            else
            {
               while( ( long)list.size() <= index) list.push_back( {});
               list[ index] = v;
            }
            break;
         }
         case 3:
         {
            const long index = vex_choose( 3, "index");
            auto found = model.find( id);
            auto rc = casual_field_remove_occurrence( handle, id, index);
            if( found != model.end() && index < ( long)found->second.size())
            {
               vex_assert( rc == CASUAL_FIELD_SUCCESS, "field: removing an existing occurrence succeeds");
               found->second.erase( found->second.begin() + index);
               if( found->second.empty()) model.erase( found);
               vex_cover( "remove existing");
            }
            else vex_assert( rc == CASUAL_FIELD_OUT_OF_BOUNDS, "field: removing a missing occurrence is reported");
            break;
         }
         case 4:
         {
            vex_assert( casual_field_remove_id( handle, id) == CASUAL_FIELD_SUCCESS || ! model.count( id), "field: removing an existing id succeeds");
            model.erase( id);
            break;
         }
         case 5:
            vex_assert( casual_field_remove_all( handle) == CASUAL_FIELD_SUCCESS, "field: removing all succeeds");
            model.clear();
            break;
         case 6:
         {
            auto target = buf::pool::holder().allocate( "CFIELD", nullptr, 0).raw();
            casual_field_add_long( &target, ids[ 2], 1);
            vex_assert( casual_field_copy_buffer( &target, handle) == CASUAL_FIELD_SUCCESS, "field: copy succeeds");
            buf::pool::holder().deallocate( buf::handle::type{ handle});
            handle = target;
            break;
         }
         default:
            handle = buf::pool::holder().reallocate( buf::handle::type{ handle}, vex_choose( 2, "size") * 512).raw();
      }
   }
}

VEX_ENTRY( field_history)
{
   auto handle = buf::pool::holder().allocate( "CFIELD", nullptr, ( VEX_TIER ? vex_choose( 2, "initial") : 0) * 256).raw();
   Model model;
   const int count = vex_choose( steps + 1, "count");
   for( int i = 0; i < count; ++i) step( handle, model);
   verify( handle, model);
   auto payload = buf::pool::holder().release( buf::handle::type{ handle}, 0);
   vex_observe( "payload size", payload.data.size());
   auto adopted = buf::pool::holder().adopt( std::move( payload)).raw();
   verify( adopted, model);
   vex_cover( "verified");
}
