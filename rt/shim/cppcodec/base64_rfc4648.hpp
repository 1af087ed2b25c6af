// cppcodec is not installed here: the two functions of it that the repository uses, with their documented behaviour
// (rfc 4648: padding required, nothing but the alphabet; too little room for the result is abort())
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>

namespace cppcodec
{
   struct parse_error : std::domain_error { using std::domain_error::domain_error;};
   struct symbol_error : parse_error { using parse_error::parse_error;};
   struct invalid_input_length : parse_error { using parse_error::parse_error;};
   struct padding_error : invalid_input_length { using invalid_input_length::invalid_input_length;};

   struct base64_rfc4648
   {
      static std::size_t encode( char* target, std::size_t room, const char* source, std::size_t size)
      {
         static constexpr char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
         const std::size_t result = ( size + 2) / 3 * 4;
         if( room < result) std::abort();
         auto in = reinterpret_cast< const unsigned char*>( source);
         char* out = target;
         for( ; size >= 3; size -= 3, in += 3)
         {
            *out++ = alphabet[ in[ 0] >> 2];
            *out++ = alphabet[ ( in[ 0] & 3) << 4 | in[ 1] >> 4];
            *out++ = alphabet[ ( in[ 1] & 15) << 2 | in[ 2] >> 6];
            *out++ = alphabet[ in[ 2] & 63];
         }
         if( size == 1)
         {
            *out++ = alphabet[ in[ 0] >> 2];
            *out++ = alphabet[ ( in[ 0] & 3) << 4];
            *out++ = '='; *out++ = '=';
         }
         else if( size == 2)
         {
            *out++ = alphabet[ in[ 0] >> 2];
            *out++ = alphabet[ ( in[ 0] & 3) << 4 | in[ 1] >> 4];
            *out++ = alphabet[ ( in[ 1] & 15) << 2];
            *out++ = '=';
         }
         if( room > result) *out = '\0';
         return result;
      }

      static int value( char c)
      {
         if( c >= 'A' && c <= 'Z') return c - 'A';
         if( c >= 'a' && c <= 'z') return c - 'a' + 26;
         if( c >= '0' && c <= '9') return c - '0' + 52;
         if( c == '+') return 62;
         if( c == '/') return 63;
         throw symbol_error{ "symbol"};
      }

      static std::size_t decode( char* target, std::size_t room, const char* source, std::size_t size)
      {
         std::size_t used = 0;
         auto put = [&]( unsigned v) { if( used >= room) std::abort(); target[ used++] = static_cast< char>( v);};
         unsigned block = 0;
         int count = 0;
         std::size_t i = 0;
         for( ; i < size && source[ i] != '='; ++i)
         {
            block = block << 6 | value( source[ i]);
            if( ++count == 4)
            {
               put( block >> 16 & 255); put( block >> 8 & 255); put( block & 255);
               block = 0; count = 0;
            }
         }
         if( i == size)
         {
            if( count) throw padding_error{ "padding"};
            return used;
         }
         // the rest is padding
         if( count < 2) throw padding_error{ "padding"};
         for( std::size_t n = i; n < size; ++n)
            if( source[ n] != '=') throw padding_error{ "padding"};
         if( size - i != static_cast< std::size_t>( 4 - count)) throw padding_error{ "padding"};
         if( count == 2) put( block >> 4 & 255);
         else { put( block >> 10 & 255); put( block >> 2 & 255);}
         return used;
      }
   };
}
