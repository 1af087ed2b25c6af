// native side of the harness interface: replays one recorded path against the real code
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <string>
#include <vector>
#include <sstream>
#include <unistd.h>

namespace
{
   struct In { std::string name; unsigned w; uint64_t v; };
   std::vector< In> inputs;
   size_t pos = 0;
   uint64_t next( const char* name, unsigned w)
   {
      if( pos >= inputs.size()) { printf( "DIVERGED more inputs than recorded (%s)\n", name); fflush( stdout); _exit( 7);}
      auto& i = inputs[ pos++];
      if( i.name != name || i.w != w) { printf( "DIVERGED input %zu is %s/%u, recorded %s/%u\n", pos - 1, name, w, i.name.c_str(), i.w); fflush( stdout); _exit( 7);}
      return i.v;
   }
}

extern "C"
{
   uint64_t vex_sym( uint64_t bits, const char* name) { auto v = next( name, bits); return bits >= 64 ? v : v & ( ( 1ull << bits) - 1);}
   int64_t vex_range( int64_t, int64_t, const char* name) { return next( name, 64);}
   uint64_t vex_choose( uint64_t, const char* name) { return next( name, 32);}
   void vex_bytes( void* p, uint64_t n, const char* name)
   {
      for( uint64_t i = 0; i < n; ++i)
         static_cast< unsigned char*>( p)[ i] = next( ( std::string( name) + "[" + std::to_string( i) + "]").c_str(), 8);
   }
   void vex_exit() { printf( "DONE\n"); fflush( stdout); _exit( 0);}
   void vex_assume_( uint64_t c) { if( ! c) { printf( "ASSUME\n"); fflush( stdout); _exit( 6);}}
   void vex_assert_( uint64_t c, const char* name)
   {
      if( ! c) { printf( "ASSERT %s\n", name); fflush( stdout); _exit( 5);}
   }
   void vex_cover( const char* name) { printf( "COVER %s\n", name);}
   void vex_observe_( const char* name, uint64_t v) { printf( "OBS %s %llu\n", name, ( unsigned long long)v);}
   uint64_t vex_concretize( uint64_t v) { return v;}
   uint64_t vex_is_symbolic( uint64_t) { return 0;}
   void vex_discard() { printf( "ASSUME\n"); fflush( stdout); _exit( 6);}
   void vex_print( const char* name, uint64_t v) { fprintf( stderr, "[print] %s %llx\n", name, ( unsigned long long)v);}
   void vex_unmodelled( const char* name) { printf( "UNMODELLED %s\n", name); fflush( stdout); _exit( 8);}
}

int main( int argc, char** argv)
{
   // replay <entry> <inputs>   lines: name<TAB>width<TAB>value
   if( argc < 3) return 2;
   std::ifstream f( argv[ 2]);
   std::string line;
   while( std::getline( f, line))
   {
      auto a = line.find( '\t'); auto b = line.find( '\t', a + 1);
      if( b == std::string::npos) continue;
      inputs.push_back( { line.substr( 0, a), ( unsigned)std::stoul( line.substr( a + 1, b - a - 1)), std::stoull( line.substr( b + 1))});
   }
   auto p = reinterpret_cast< void(*)()>( dlsym( RTLD_DEFAULT, argv[ 1]));
   if( ! p) { printf( "no entry %s\n", argv[ 1]); return 2;}
   std::set_terminate( []{ printf( "TERMINATE\n"); fflush( stdout); _exit( 9);});
   p();
   vex_exit();
}
