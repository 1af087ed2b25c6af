// Runtime for symbolic execution: the part of libstdc++ / libc++abi / libc that is not in headers.
// Compiled to bitcode and linked below the code under test. Not part of the code under test.
#define __NO_CTYPE 1
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <system_error>
#include <functional>
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <locale>
#include <ios>
#include <ostream>
#include <istream>
#include <sstream>
#include <iomanip>
#include <charconv>
#include <optional>
#include <variant>
#include <any>
#include <chrono>
#include <memory>

extern "C" void vex_raise( void* header) __attribute__((noreturn));
extern "C" void* vex_upcast( const void* from, const void* to, void* object);
extern "C" void vex_unmodelled( const char* name) __attribute__((noreturn));

// ------------------------------------------------------------------ exceptions

namespace
{
   struct Header
   {
      void* object;                 // 0
      const std::type_info* type;   // 8
      void (*destructor)( void*);   // 16
      long references;              // 24
      long handlers;                // 32
      Header* next;                 // 40
      void* adjusted;               // 48
      long dummy[ 9];
   };
   static_assert( sizeof( Header) == 128);

   Header* g_caught = nullptr;
   int g_uncaught = 0;

   Header* header( void* object) { return reinterpret_cast< Header*>( static_cast< char*>( object) - sizeof( Header));}

   void release( Header* h)
   {
      if( --h->references == 0)
      {
         if( h->destructor) h->destructor( h->object);
         free( h);
      }
   }
}

extern "C"
{
   void* __cxa_allocate_exception( size_t n) noexcept
   {
      auto h = static_cast< Header*>( malloc( sizeof( Header) + n));
      memset( h, 0, sizeof( Header));
      h->object = reinterpret_cast< char*>( h) + sizeof( Header);
      return h->object;
   }
   void __cxa_free_exception( void* p) noexcept { free( header( p));}
   void __cxa_throw( void* object, std::type_info* type, void (*destructor)( void*))
   {
      auto h = header( object);
      h->type = type; h->destructor = destructor; h->references = 1; h->handlers = 0;
      ++g_uncaught;
      vex_raise( h);
   }
   void* __cxa_begin_catch( void* p) noexcept
   {
      auto h = static_cast< Header*>( p);
      --g_uncaught;
      if( h->handlers < 0) h->handlers = -h->handlers;
      if( h->handlers == 0) { h->next = g_caught; g_caught = h;}
      ++h->handlers;
      return h->adjusted;
   }
   void __cxa_end_catch()
   {
      auto h = g_caught;
      if( ! h) return;
      if( h->handlers < 0)
      {
         // rethrown from the handler
         if( ++h->handlers == 0) g_caught = h->next;
         return;
      }
      if( --h->handlers == 0)
      {
         g_caught = h->next;
         release( h);
      }
   }
   void __cxa_rethrow()
   {
      auto h = g_caught;
      if( ! h) std::terminate();
      ++g_uncaught;
      h->handlers = -h->handlers;
      vex_raise( h);
   }
   void* __cxa_get_exception_ptr( void* p) noexcept { return static_cast< Header*>( p)->adjusted;}
   std::type_info* __cxa_current_exception_type() noexcept { return g_caught ? const_cast< std::type_info*>( g_caught->type) : nullptr;}
   void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length{};}
   void __cxa_bad_cast() { throw std::bad_cast{};}
   void __cxa_bad_typeid() { throw std::bad_typeid{};}
   void vexrt_throw_bad_alloc() { throw std::bad_alloc{};}
   void __clang_call_terminate_rt() { std::terminate();}
   int __gxx_personality_v0() { return 0;}
   int vexrt_guard_acquire( uint64_t*) __asm__( "__cxa_guard_acquire");
   int vexrt_guard_acquire( uint64_t* g) { return *reinterpret_cast< char*>( g) == 0;}
   void vexrt_guard_release( uint64_t*) __asm__( "__cxa_guard_release");
   void vexrt_guard_release( uint64_t* g) { *reinterpret_cast< char*>( g) = 1;}
   void vexrt_guard_abort( uint64_t*) __asm__( "__cxa_guard_abort");
   void vexrt_guard_abort( uint64_t*) {}

   struct __vexrt_ti { void* vptr; const char* name;};

   void* vexrt_dynamic_cast( const void* src, const void* srctype, const void* dsttype, ptrdiff_t) __asm__( "__dynamic_cast");
   void* vexrt_dynamic_cast( const void* src, const void* srctype, const void* dsttype, ptrdiff_t)
   {
      auto vtable = *static_cast< void* const* const*>( src);
      auto offset = reinterpret_cast< ptrdiff_t>( vtable[ -2]);
      auto whole = const_cast< char*>( static_cast< const char*>( src)) + offset;
      return vex_upcast( vtable[ -1], dsttype, whole);
   }
}

namespace std
{
   int uncaught_exceptions() noexcept { return g_uncaught;}
   bool uncaught_exception() noexcept { return g_uncaught > 0;}
   namespace __exception_ptr
   {
      exception_ptr::exception_ptr( void* p) noexcept : _M_exception_object( p) { _M_addref();}
      void exception_ptr::_M_addref() noexcept { if( _M_exception_object) ++header( _M_exception_object)->references;}
      void exception_ptr::_M_release() noexcept
      {
         if( ! _M_exception_object) return;
         auto h = header( _M_exception_object);
         _M_exception_object = nullptr;
         release( h);
      }
      void* exception_ptr::_M_get() const noexcept { return _M_exception_object;}
   }
   exception_ptr current_exception() noexcept
   {
      if( ! g_caught) return {};
      return exception_ptr( g_caught->object);
   }
   void rethrow_exception( exception_ptr p)
   {
      // a dependent exception: same object, own header state would be needed when it is being handled already
      auto h = header( p._M_get());
      if( h->handlers != 0)
      {
         // being handled further out: clone the bookkeeping by treating it as rethrown
         ++h->references;
         ++g_uncaught;
         h->handlers = h->handlers > 0 ? -h->handlers : h->handlers;
         vex_raise( h);
      }
      ++h->references;
      ++g_uncaught;
      vex_raise( h);
   }

   exception::~exception() noexcept = default;
   const char* exception::what() const noexcept { return "std::exception";}
   bad_exception::~bad_exception() noexcept = default;
   const char* bad_exception::what() const noexcept { return "std::bad_exception";}
   bad_alloc::~bad_alloc() noexcept = default;
   const char* bad_alloc::what() const noexcept { return "std::bad_alloc";}
   bad_array_new_length::~bad_array_new_length() noexcept = default;
   const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length";}
   bad_cast::~bad_cast() noexcept = default;
   const char* bad_cast::what() const noexcept { return "std::bad_cast";}
   bad_typeid::~bad_typeid() noexcept = default;
   const char* bad_typeid::what() const noexcept { return "std::bad_typeid";}

   bad_function_call::~bad_function_call() noexcept = default;
   const char* bad_function_call::what() const noexcept { return "bad_function_call";}

   // the message of logic_error/runtime_error: a reference counted string in libstdc++, a copied one here
   static const char* vexdup( const char* s, size_t n)
   {
      auto p = static_cast< char*>( malloc( n + 1));
      memcpy( p, s, n);
      p[ n] = 0;
      return p;
   }
   __cow_string::__cow_string() : _M_p( vexdup( "", 0)) {}
   __cow_string::__cow_string( const std::string& s) : _M_p( vexdup( s.data(), s.size())) {}
   __cow_string::__cow_string( const char* s, size_t n) : _M_p( vexdup( s, n)) {}
   __cow_string::__cow_string( const __cow_string& o) noexcept : _M_p( vexdup( o._M_p, strlen( o._M_p))) {}
   __cow_string& __cow_string::operator = ( const __cow_string& o) noexcept { if( this != &o) { free( const_cast< char*>( _M_p)); _M_p = vexdup( o._M_p, strlen( o._M_p));} return *this;}
   __cow_string::~__cow_string() { free( const_cast< char*>( _M_p));}
   __cow_string::__cow_string( __cow_string&& o) noexcept : _M_p( vexdup( o._M_p, strlen( o._M_p))) {}
   __cow_string& __cow_string::operator = ( __cow_string&& o) noexcept { return *this = static_cast< const __cow_string&>( o);}

   logic_error::logic_error( const string& s) : _M_msg( s) {}
   logic_error::logic_error( const char* s) : _M_msg( s, strlen( s)) {}
   logic_error::logic_error( const logic_error&) noexcept = default;
   logic_error& logic_error::operator = ( const logic_error&) noexcept = default;
   logic_error::logic_error( logic_error&&) noexcept = default;
   logic_error& logic_error::operator = ( logic_error&&) noexcept = default;
   logic_error::~logic_error() noexcept {}
   const char* logic_error::what() const noexcept { return _M_msg._M_p;}
   runtime_error::runtime_error( const string& s) : _M_msg( s) {}
   runtime_error::runtime_error( const char* s) : _M_msg( s, strlen( s)) {}
   runtime_error::runtime_error( const runtime_error&) noexcept = default;
   runtime_error& runtime_error::operator = ( const runtime_error&) noexcept = default;
   runtime_error::runtime_error( runtime_error&&) noexcept = default;
   runtime_error& runtime_error::operator = ( runtime_error&&) noexcept = default;
   runtime_error::~runtime_error() noexcept {}
   const char* runtime_error::what() const noexcept { return _M_msg._M_p;}
   domain_error::domain_error( const string& s) : logic_error( s) {}
   domain_error::~domain_error() noexcept {}
   invalid_argument::invalid_argument( const string& s) : logic_error( s) {}
   invalid_argument::invalid_argument( const char* s) : logic_error( s) {}
   invalid_argument::~invalid_argument() noexcept {}
   length_error::length_error( const string& s) : logic_error( s) {}
   length_error::length_error( const char* s) : logic_error( s) {}
   length_error::~length_error() noexcept {}
   out_of_range::out_of_range( const string& s) : logic_error( s) {}
   out_of_range::out_of_range( const char* s) : logic_error( s) {}
   out_of_range::~out_of_range() noexcept {}
   range_error::~range_error() noexcept {}
   overflow_error::~overflow_error() noexcept {}
   underflow_error::~underflow_error() noexcept {}

   void __throw_bad_exception() { throw bad_exception{};}
   void __throw_bad_alloc() { throw bad_alloc{};}
   void __throw_bad_array_new_length() { throw bad_array_new_length{};}
   void __throw_bad_cast() { throw bad_cast{};}
   void __throw_bad_typeid() { throw bad_typeid{};}
   void __throw_logic_error( const char* s) { throw logic_error( s);}
   void __throw_domain_error( const char* s) { throw domain_error( string( s));}
   void __throw_invalid_argument( const char* s) { throw invalid_argument( s);}
   void __throw_length_error( const char* s) { throw length_error( s);}
   void __throw_out_of_range( const char* s) { throw out_of_range( s);}
   void __throw_out_of_range_fmt( const char* s, ...) { throw out_of_range( s);}
   void __throw_runtime_error( const char* s) { throw runtime_error( s);}
   void __throw_bad_function_call() { throw bad_function_call{};}
   void __throw_system_error( int e) { throw system_error( error_code( e, generic_category()));}

   // ---- error codes
   inline namespace _V2
   {
      error_category::~error_category() {}
      error_condition error_category::default_error_condition( int i) const noexcept { return error_condition( i, *this);}
      bool error_category::equivalent( int i, const error_condition& c) const noexcept { return default_error_condition( i) == c;}
      bool error_category::equivalent( const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i;}
      __cow_string error_category::_M_message( int) const { return {};}
      namespace
      {
         struct Generic : error_category
         {
            const char* name() const noexcept override { return "generic";}
            string message( int) const override { return "generic error";}
         };
         struct System : error_category
         {
            const char* name() const noexcept override { return "system";}
            string message( int) const override { return "system error";}
            error_condition default_error_condition( int i) const noexcept override { return error_condition( i, generic_category());}
         };
      }
      const error_category& generic_category() noexcept { static const Generic g; return g;}
      const error_category& system_category() noexcept { static const System g; return g;}
   }
   error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition( value());}
   system_error::~system_error() noexcept {}

   // ---- containers
   void __detail::_List_node_base::_M_hook( _List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;}
   void __detail::_List_node_base::_M_unhook() noexcept { auto n = _M_next; auto p = _M_prev; p->_M_next = n; n->_M_prev = p;}
   void __detail::_List_node_base::_M_transfer( _List_node_base* first, _List_node_base* last) noexcept
   {
      if( this != last)
      {
         last->_M_prev->_M_next = this;
         first->_M_prev->_M_next = last;
         this->_M_prev->_M_next = first;
         auto tmp = this->_M_prev;
         this->_M_prev = last->_M_prev;
         last->_M_prev = first->_M_prev;
         first->_M_prev = tmp;
      }
   }
   void __detail::_List_node_base::swap( _List_node_base& x, _List_node_base& y) noexcept
   {
      if( x._M_next != &x)
      {
         if( y._M_next != &y)
         {
            std::swap( x._M_next, y._M_next); std::swap( x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
         }
         else
         {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
         }
      }
      else if( y._M_next != &y)
      {
         x._M_next = y._M_next; x._M_prev = y._M_prev;
         x._M_next->_M_prev = x._M_prev->_M_next = &x;
         y._M_next = y._M_prev = &y;
      }
   }
   void __detail::_List_node_base::_M_reverse() noexcept
   {
      auto t = this;
      do { std::swap( t->_M_next, t->_M_prev); t = t->_M_prev;} while( t != this);
   }

   using Base = _Rb_tree_node_base;
   Base* _Rb_tree_increment( Base* x) noexcept
   {
      if( x->_M_right) { x = x->_M_right; while( x->_M_left) x = x->_M_left;}
      else
      {
         auto y = x->_M_parent;
         while( x == y->_M_right) { x = y; y = y->_M_parent;}
         if( x->_M_right != y) x = y;
      }
      return x;
   }
   const Base* _Rb_tree_increment( const Base* x) noexcept { return _Rb_tree_increment( const_cast< Base*>( x));}
   Base* _Rb_tree_decrement( Base* x) noexcept
   {
      if( x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
      else if( x->_M_left) { auto y = x->_M_left; while( y->_M_right) y = y->_M_right; x = y;}
      else
      {
         auto y = x->_M_parent;
         while( x == y->_M_left) { x = y; y = y->_M_parent;}
         x = y;
      }
      return x;
   }
   const Base* _Rb_tree_decrement( const Base* x) noexcept { return _Rb_tree_decrement( const_cast< Base*>( x));}
   static void rotate_left( Base* x, Base*& root)
   {
      auto y = x->_M_right;
      x->_M_right = y->_M_left;
      if( y->_M_left) y->_M_left->_M_parent = x;
      y->_M_parent = x->_M_parent;
      if( x == root) root = y;
      else if( x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
      else x->_M_parent->_M_right = y;
      y->_M_left = x;
      x->_M_parent = y;
   }
   static void rotate_right( Base* x, Base*& root)
   {
      auto y = x->_M_left;
      x->_M_left = y->_M_right;
      if( y->_M_right) y->_M_right->_M_parent = x;
      y->_M_parent = x->_M_parent;
      if( x == root) root = y;
      else if( x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
      else x->_M_parent->_M_left = y;
      y->_M_right = x;
      x->_M_parent = y;
   }
   void _Rb_tree_insert_and_rebalance( const bool left, Base* x, Base* p, Base& header) noexcept
   {
      auto& root = header._M_parent;
      x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_red;
      if( left)
      {
         p->_M_left = x;
         if( p == &header) { header._M_parent = x; header._M_right = x;}
         else if( p == header._M_left) header._M_left = x;
      }
      else
      {
         p->_M_right = x;
         if( p == header._M_right) header._M_right = x;
      }
      while( x != root && x->_M_parent->_M_color == _S_red)
      {
         auto const xpp = x->_M_parent->_M_parent;
         if( x->_M_parent == xpp->_M_left)
         {
            auto const y = xpp->_M_right;
            if( y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;}
            else
            {
               if( x == x->_M_parent->_M_right) { x = x->_M_parent; rotate_left( x, root);}
               x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotate_right( xpp, root);
            }
         }
         else
         {
            auto const y = xpp->_M_left;
            if( y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;}
            else
            {
               if( x == x->_M_parent->_M_left) { x = x->_M_parent; rotate_right( x, root);}
               x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotate_left( xpp, root);
            }
         }
      }
      root->_M_color = _S_black;
   }
   Base* _Rb_tree_rebalance_for_erase( Base* const z, Base& header) noexcept
   {
      auto& root = header._M_parent; auto& leftmost = header._M_left; auto& rightmost = header._M_right;
      Base* y = z; Base* x = nullptr; Base* xp = nullptr;
      if( ! y->_M_left) x = y->_M_right;
      else if( ! y->_M_right) x = y->_M_left;
      else { y = y->_M_right; while( y->_M_left) y = y->_M_left; x = y->_M_right;}
      if( y != z)
      {
         z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
         if( y != z->_M_right)
         {
            xp = y->_M_parent;
            if( x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
         }
         else xp = y;
         if( root == z) root = y;
         else if( z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
         else z->_M_parent->_M_right = y;
         y->_M_parent = z->_M_parent;
         std::swap( y->_M_color, z->_M_color);
         y = z;
      }
      else
      {
         xp = y->_M_parent;
         if( x) x->_M_parent = y->_M_parent;
         if( root == z) root = x;
         else if( z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
         else z->_M_parent->_M_right = x;
         if( leftmost == z)
         {
            if( ! z->_M_right) leftmost = z->_M_parent;
            else { auto m = x; while( m->_M_left) m = m->_M_left; leftmost = m;}
         }
         if( rightmost == z)
         {
            if( ! z->_M_left) rightmost = z->_M_parent;
            else { auto m = x; while( m->_M_right) m = m->_M_right; rightmost = m;}
         }
      }
      if( y->_M_color != _S_red)
      {
         while( x != root && ( ! x || x->_M_color == _S_black))
            if( x == xp->_M_left)
            {
               auto w = xp->_M_right;
               if( w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotate_left( xp, root); w = xp->_M_right;}
               if( ( ! w->_M_left || w->_M_left->_M_color == _S_black) && ( ! w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent;}
               else
               {
                  if( ! w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotate_right( w, root); w = xp->_M_right;}
                  w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                  if( w->_M_right) w->_M_right->_M_color = _S_black;
                  rotate_left( xp, root);
                  break;
               }
            }
            else
            {
               auto w = xp->_M_left;
               if( w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotate_right( xp, root); w = xp->_M_left;}
               if( ( ! w->_M_right || w->_M_right->_M_color == _S_black) && ( ! w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent;}
               else
               {
                  if( ! w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotate_left( w, root); w = xp->_M_left;}
                  w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                  if( w->_M_left) w->_M_left->_M_color = _S_black;
                  rotate_right( xp, root);
                  break;
               }
            }
         if( x) x->_M_color = _S_black;
      }
      return y;
   }

   // one hash bucket: unordered containers become lists, iteration order is not part of any property
   namespace __detail
   {
      size_t _Prime_rehash_policy::_M_next_bkt( size_t n) const { _M_next_resize = ~size_t( 0) >> 1; return n < 2 ? 1 : 13;}
      pair< bool, size_t> _Prime_rehash_policy::_M_need_rehash( size_t, size_t, size_t) const { return { false, 0};}
   }
   size_t _Hash_bytes( const void* p, size_t n, size_t seed)
   {
      auto c = static_cast< const unsigned char*>( p);
      size_t h = seed;
      for( size_t i = 0; i < n; ++i) h = h * 31 + c[ i];
      return h;
   }
   size_t _Fnv_hash_bytes( const void* p, size_t n, size_t seed) { return _Hash_bytes( p, n, seed);}
}

// ------------------------------------------------------------------ locale and streams
// ostringstream is libstdc++'s own code; numbers are formatted here (no locale)
namespace std
{
   alignas( 16) static char g_ctype_storage[ sizeof( ctype< char>)];
   static ctype_base::mask g_ctype_table[ 256];

   struct vexctype : ctype< char>
   {
      static void init()
      {
         auto c = reinterpret_cast< vexctype*>( g_ctype_storage);
         c->_M_widen_ok = 1; c->_M_narrow_ok = 1;
         for( int i = 0; i < 256; ++i)
         {
            c->_M_widen[ i] = ( char)i; c->_M_narrow[ i] = ( char)i;
            ctype_base::mask m = 0;
            if( i >= 'A' && i <= 'Z') m |= upper | alpha | print | graph;
            if( i >= 'a' && i <= 'z') m |= lower | alpha | print | graph;
            if( i >= '0' && i <= '9') m |= digit | xdigit | print | graph;
            if( ( i >= 'A' && i <= 'F') || ( i >= 'a' && i <= 'f')) m |= xdigit;
            if( i == ' ' || ( i >= 9 && i <= 13)) m |= space;
            if( i == ' ') m |= print;
            if( i < 32 || i == 127) m |= cntrl;
            if( i > 32 && i < 127 && ! ( m & ( alpha | digit))) m |= punct | print | graph;
            g_ctype_table[ i] = m;
         }
         c->_M_table = g_ctype_table;
      }
   };

   locale::locale() noexcept : _M_impl( nullptr) {}
   locale::locale( const locale&) noexcept : _M_impl( nullptr) {}
   locale::locale( _Impl* p) noexcept : _M_impl( p) {}
   locale::~locale() noexcept {}
   const locale& locale::operator = ( const locale&) noexcept { return *this;}
   bool locale::operator == ( const locale&) const noexcept { return true;}
   const locale& locale::classic() { static locale l; return l;}
   locale::facet::~facet() {}
   size_t locale::id::_M_id() const noexcept { return 1;}

   ios_base::ios_base() noexcept
      : _M_precision( 6), _M_width( 0), _M_flags( skipws | dec), _M_exception(), _M_streambuf_state( goodbit), _M_callbacks( nullptr), _M_word_zero(), _M_word_size( _S_local_word_size), _M_word( _M_local_word)
   {}
   ios_base::~ios_base() {}
   void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec;}
   void ios_base::_M_call_callbacks( event) noexcept {}
   void ios_base::_M_dispose_callbacks() noexcept {}
   locale ios_base::imbue( const locale& l) noexcept { return l;}
   ios_base::Init::Init() {}
   ios_base::Init::~Init() {}
   ios_base::failure::failure( const string& s) : system_error( error_code( 1, generic_category()), s) {}
   ios_base::failure::failure( const string& s, const error_code& c) : system_error( c, s) {}
   ios_base::failure::failure( const char* s, const error_code& c) : system_error( c, s) {}
   ios_base::failure::~failure() {}
   const char* ios_base::failure::what() const noexcept { return "ios failure";}
   void __throw_ios_failure( const char* s) { throw ios_base::failure( string( s));}
   void __throw_ios_failure( const char* s, int) { throw ios_base::failure( string( s));}

   template<> void basic_ios< char>::_M_cache_locale( const locale&)
   {
      static bool once = ( vexctype::init(), true);
      ( void)once;
      _M_ctype = reinterpret_cast< ctype< char>*>( g_ctype_storage);
      _M_num_put = nullptr;
      _M_num_get = nullptr;
   }
   template<> locale basic_ios< char>::imbue( const locale& l) { return l;}

   template<> template<> bool has_facet< ctype< char>>( const locale&) noexcept { return true;}
   template<> const ctype< char>& use_facet< ctype< char>>( const locale&) { static bool once = ( vexctype::init(), true); ( void)once; return *reinterpret_cast< ctype< char>*>( g_ctype_storage);}
}
namespace std
{
   namespace
   {
      template< typename U>
      ostream& vexput( ostream& out, bool negative, U value)
      {
         char buffer[ 32];
         char* end = buffer + sizeof( buffer);
         char* p = end;
         auto base = out.flags() & ios_base::basefield;
         unsigned b = base == ios_base::hex ? 16 : base == ios_base::oct ? 8 : 10;
         do { auto d = value % b; *--p = d < 10 ? '0' + d : 'a' + d - 10; value /= b;} while( value);
         if( negative) *--p = '-';
         return __ostream_insert( out, p, end - p);
      }
   }
   template<> template<> ostream& ostream::_M_insert( long v) { bool n = v < 0 && ( flags() & ios_base::basefield) != ios_base::hex; return vexput( *this, n, n ? 0ul - (unsigned long)v : (unsigned long)v);}
   template<> template<> ostream& ostream::_M_insert( unsigned long v) { return vexput( *this, false, v);}
   template<> template<> ostream& ostream::_M_insert( long long v) { bool n = v < 0; return vexput( *this, n, n ? 0ull - (unsigned long long)v : (unsigned long long)v);}
   template<> template<> ostream& ostream::_M_insert( unsigned long long v) { return vexput( *this, false, v);}
   template<> template<> ostream& ostream::_M_insert( bool v) { if( flags() & ios_base::boolalpha) return __ostream_insert( *this, v ? "true" : "false", v ? 4 : 5); return __ostream_insert( *this, v ? "1" : "0", 1);}
   template<> template<> ostream& ostream::_M_insert( double) { return __ostream_insert( *this, "<double>", 8);}
   template<> template<> ostream& ostream::_M_insert( long double) { return __ostream_insert( *this, "<double>", 8);}
   template<> template<> ostream& ostream::_M_insert( const void*) { return __ostream_insert( *this, "<pointer>", 9);}
   template<> ostream& ostream::operator << ( int v) { return _M_insert( static_cast< long>( v));}
   template<> ostream& ostream::operator << ( short v) { return _M_insert( static_cast< long>( v));}

   template class basic_streambuf< char>;
   template class basic_stringbuf< char>;
   template class basic_ios< char>;
   template class basic_ostream< char>;
   template class basic_ostringstream< char>;
   template ostream& __ostream_insert( ostream&, const char*, streamsize);
   template ostream& operator << ( ostream&, char);
   template ostream& operator << ( ostream&, signed char);
   template ostream& operator << ( ostream&, unsigned char);
   template ostream& operator << ( ostream&, const char*);
   template ostream& endl( ostream&);
   template ostream& flush( ostream&);
   template class basic_string< char>;
}

extern "C"
{
   char __libc_single_threaded = 1;
   static int vexrt_errno = 0;
   int* __errno_location() noexcept { return &vexrt_errno;}

   void* realloc( void* p, size_t n) noexcept
   {
      extern size_t malloc_usable_size( void*) noexcept;
      auto r = malloc( n);
      if( ! r || ! p) return r;
      auto o = malloc_usable_size( p);
      memcpy( r, p, o < n ? o : n);
      free( p);
      return r;
   }
}
#define VEXLOOP __attribute__(( noinline))
extern "C"
{
   VEXLOOP int strcmp( const char* a, const char* b) noexcept { for( ; *a && *a == *b; ++a, ++b) asm volatile( ""); return ( unsigned char)*a - ( unsigned char)*b;}
   VEXLOOP int strncmp( const char* a, const char* b, size_t n) noexcept { for( ; n; ++a, ++b, --n) { if( *a != *b || ! *a) return ( unsigned char)*a - ( unsigned char)*b;} return 0;}
   VEXLOOP char* strcpy( char* d, const char* s) noexcept { auto r = d; while( ( *d++ = *s++)) asm volatile( ""); return r;}
   VEXLOOP char* strncpy( char* d, const char* s, size_t n) noexcept { size_t i = 0; for( ; i < n && s[ i]; ++i) d[ i] = s[ i]; for( ; i < n; ++i) d[ i] = 0; return d;}
   VEXLOOP char* strcat( char* d, const char* s) noexcept { strcpy( d + strlen( d), s); return d;}
   VEXLOOP size_t strnlen( const char* s, size_t n) noexcept { size_t i = 0; while( i < n && s[ i]) ++i; return i;}
   VEXLOOP int toupper( int c) noexcept { return c >= 'a' && c <= 'z' ? c - 32 : c;}
   VEXLOOP int tolower( int c) noexcept { return c >= 'A' && c <= 'Z' ? c + 32 : c;}
   VEXLOOP int isdigit( int c) noexcept { return c >= '0' && c <= '9';}
   VEXLOOP int isalpha( int c) noexcept { return ( c >= 'a' && c <= 'z') || ( c >= 'A' && c <= 'Z');}
   VEXLOOP int isalnum( int c) noexcept { return isalpha( c) || isdigit( c);}
   VEXLOOP int isspace( int c) noexcept { return c == ' ' || ( c >= 9 && c <= 13);}
   VEXLOOP int isprint( int c) noexcept { return c >= 32 && c < 127;}
   VEXLOOP int iscntrl( int c) noexcept { return ( c >= 0 && c < 32) || c == 127;}
   VEXLOOP int isupper( int c) noexcept { return c >= 'A' && c <= 'Z';}
   VEXLOOP int islower( int c) noexcept { return c >= 'a' && c <= 'z';}
   VEXLOOP int isxdigit( int c) noexcept { return isdigit( c) || ( c >= 'a' && c <= 'f') || ( c >= 'A' && c <= 'F');}
   VEXLOOP int ispunct( int c) noexcept { return isprint( c) && ! isalnum( c) && c != ' ';}
   VEXLOOP void* vexrt_memchr( const void* p, int c, size_t n) noexcept { auto s = static_cast< const unsigned char*>( p); for( size_t i = 0; i < n; ++i) if( s[ i] == ( unsigned char)c) return const_cast< unsigned char*>( s + i); return nullptr;}
   VEXLOOP char* vexrt_strchr( const char* s, int c) noexcept { for( ;; ++s) { if( *s == ( char)c) return const_cast< char*>( s); if( ! *s) return nullptr;}}
   VEXLOOP char* vexrt_strrchr( const char* s, int c) noexcept { char* r = nullptr; for( ;; ++s) { if( *s == ( char)c) r = const_cast< char*>( s); if( ! *s) return r;}}
   VEXLOOP long strtol( const char* s, char** e, int base) noexcept
   {
      auto o = s;
      while( isspace( *s)) ++s;
      bool n = false;
      if( *s == '-' || *s == '+') n = *s++ == '-';
      unsigned long v = 0; bool any = false;
      for( ;; ++s)
      {
         int d = isdigit( *s) ? *s - '0' : isalpha( *s) ? tolower( *s) - 'a' + 10 : 99;
         if( d >= ( base ? base : 10)) break;
         any = true; v = v * ( base ? base : 10) + d;
      }
      if( e) *e = const_cast< char*>( any ? s : o);
      return n ? -( long)v : ( long)v;
   }
   VEXLOOP unsigned long strtoul( const char* s, char** e, int b) noexcept { return strtol( s, e, b);}
   VEXLOOP long long strtoll( const char* s, char** e, int b) noexcept { return strtol( s, e, b);}
   VEXLOOP unsigned long long strtoull( const char* s, char** e, int b) noexcept { return strtol( s, e, b);}
   VEXLOOP int vexrt_atoi( const char* s) noexcept __asm__( "atoi");
   VEXLOOP int vexrt_atoi( const char* s) noexcept { return strtol( s, nullptr, 10);}
}
// the C++ headers declare these as overload pairs: bind the C symbols by name
void* vexrt_c_memchr( const void*, int, size_t) noexcept __asm__( "memchr");
void* vexrt_c_memchr( const void* p, int c, size_t n) noexcept { return vexrt_memchr( p, c, n);}
char* vexrt_c_strchr( const char*, int) noexcept __asm__( "strchr");
char* vexrt_c_strchr( const char* p, int c) noexcept { return vexrt_strchr( p, c);}
char* vexrt_c_strrchr( const char*, int) noexcept __asm__( "strrchr");
char* vexrt_c_strrchr( const char* p, int c) noexcept { return vexrt_strrchr( p, c);}

// ------------------------------------------------------------------ the environment of a process, as far as it does not matter
extern "C"
{
   char* vexrt_setlocale( int, const char*) noexcept __asm__( "setlocale");
   char* vexrt_setlocale( int, const char*) noexcept { static char c[] = "C"; return c;}
   void vexrt_tzset() noexcept __asm__( "tzset");
   void vexrt_tzset() noexcept {}
   int vexrt_sched_yield() noexcept __asm__( "sched_yield");
   int vexrt_sched_yield() noexcept { return 0;}
}

// ------------------------------------------------------------------ std::filesystem::path: a string; components are found in the text
#include <filesystem>
namespace std::filesystem::__cxx11
{
   struct path::_List::_Impl {};
   path::_List::_List() : _M_impl( reinterpret_cast< _Impl*>( uintptr_t( 3))) {}
   path::_List::_List( const _List&) : _M_impl( reinterpret_cast< _Impl*>( uintptr_t( 3))) {}
   path::_List& path::_List::operator=( const _List&) { return *this;}
   void path::_List::_Impl_deleter::operator()( _Impl*) const noexcept {}
   void path::_M_split_cmpts() {}
   path& path::operator/=( const path& p)
   {
      if( ! p._M_pathname.empty() && p._M_pathname[ 0] == '/') { _M_pathname = p._M_pathname; return *this;}
      if( ! _M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
      _M_pathname += p._M_pathname;
      return *this;
   }
   void path::_M_append( basic_string_view< char> s)
   {
      if( ! s.empty() && s[ 0] == '/') { _M_pathname.assign( s.data(), s.size()); return;}
      if( ! _M_pathname.empty() && _M_pathname.back() != '/') _M_pathname += '/';
      _M_pathname.append( s.data(), s.size());
   }
   path& path::operator+=( const path& p) { _M_pathname += p._M_pathname; return *this;}
   void path::_M_concat( basic_string_view< char> s) { _M_pathname.append( s.data(), s.size());}
   path path::parent_path() const
   {
      auto p = _M_pathname.rfind( '/');
      if( p == string::npos) return path{};
      if( p == 0) return path{ "/"};
      return path{ _M_pathname.substr( 0, p)};
   }
   pair< const string*, size_t> path::_M_find_extension() const noexcept
   {
      auto s = _M_pathname.rfind( '/');
      auto d = _M_pathname.rfind( '.');
      if( d == string::npos || ( s != string::npos && d <= s + 1) || d == 0) return { &_M_pathname, string::npos};
      return { &_M_pathname, d};
   }
   path& path::remove_filename() { auto p = _M_pathname.rfind( '/'); _M_pathname.erase( p == string::npos ? 0 : p + 1); return *this;}
   path& path::replace_filename( const path& r) { remove_filename(); _M_append( r._M_pathname); return *this;}
   path& path::replace_extension( const path& r)
   {
      auto e = _M_find_extension();
      if( e.second != string::npos) _M_pathname.erase( e.second);
      if( ! r._M_pathname.empty() && r._M_pathname[ 0] != '.') _M_pathname += '.';
      _M_pathname += r._M_pathname;
      return *this;
   }
   bool path::has_root_path() const noexcept { return ! _M_pathname.empty() && _M_pathname[ 0] == '/';}
   bool path::has_root_directory() const noexcept { return ! _M_pathname.empty() && _M_pathname[ 0] == '/';}
   bool path::has_filename() const noexcept { return ! _M_pathname.empty() && _M_pathname.back() != '/';}
   int path::compare( const path& p) const noexcept { return _M_pathname.compare( p._M_pathname);}
   int path::compare( basic_string_view< char> p) const noexcept { return basic_string_view< char>( _M_pathname).compare( p);}
}
namespace std::filesystem { __cxx11::path temp_directory_path() { return path{ "/tmp"};} }
