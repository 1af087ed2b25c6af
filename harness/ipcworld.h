// the ipc of a process, as its harness sees it: what is sent is recorded (or fails, if the harness says the destination is gone),
// what is received is what the harness delivers. Everything above the transport is the real code.
#pragma once
#include "prelude.h"
#include "common/communication/ipc.h"
#include "common/communication/ipc/send.h"
#include "common/communication/ipc/message.h"
#include "common/communication/instance.h"
#include "common/process.h"
#include "common/code/raise.h"
#include "common/code/casual.h"
#include "common/message/dispatch.h"
#include "common/execution/context.h"

#include <deque>

// where a process lives: fixed names, no look at the file system
namespace casual::common::environment
{
   namespace directory
   {
      namespace { const std::filesystem::path& fixed() { static const std::filesystem::path p{ "/x"}; return p;}}
      __attribute__(( weak)) const std::filesystem::path& domain() { return fixed();}
      __attribute__(( weak)) std::filesystem::path temporary() { return fixed();}
      __attribute__(( weak)) const std::filesystem::path& install() { return fixed();}
      __attribute__(( weak)) const std::filesystem::path& ipc() { return fixed();}
      __attribute__(( weak)) const std::filesystem::path& queue() { return fixed();}
      __attribute__(( weak)) const std::filesystem::path& transaction() { return fixed();}
   }
}

namespace world
{
   using namespace casual::common;
   namespace ipc = casual::common::communication::ipc;
   using Complete = ipc::message::Complete;

   struct Sent
   {
      strong::ipc::id destination;
      Complete complete;
   };

   inline std::vector< Sent> sent;
   inline std::vector< strong::ipc::id> gone;
   inline std::deque< Complete> incoming;
   // when set: decides if a send is to fail
   inline bool (*fails)( const strong::ipc::id&, const Complete&) = nullptr;
   // when set: decides if a manager can't be connected to
   inline bool (*absent)( const strong::ipc::id&) = nullptr;
   // the id and descriptor of the next inbound device
   inline unsigned inbound_ipc = 4242;
   inline int inbound_descriptor = 70;

   inline strong::ipc::id ipc_id( unsigned n)
   {
      Uuid::uuid_type raw{};
      raw[ 0] = 0x1c; raw[ 14] = n >> 8; raw[ 15] = n;
      return strong::ipc::id{ Uuid{ raw}};
   }
   inline process::Handle handle( unsigned n) { return process::Handle{ strong::process::id{ (int)n}, ipc_id( n)};}

   inline Complete copy( const Complete& c)
   {
      auto payload = c.payload;
      return Complete{ c.type(), c.correlation(), std::move( payload)};
   }

   inline void record( const strong::ipc::id& destination, const Complete& c)
   {
      for( auto& g : gone)
         if( g == destination) code::raise::error( code::casual::communication_unavailable, "gone");
      if( fails && fails( destination, c)) code::raise::error( code::casual::communication_unavailable, "gone");
      sent.push_back( Sent{ destination, copy( c)});
   }

   template< typename M>
   M as( const Complete& c)
   {
      auto other = copy( c);
      M message;
      other >> message;
      return message;
   }

   template< typename M>
   Complete complete( M&& message) { return serialize::native::complete< Complete>( std::forward< M>( message));}

   // deliver a message to the dispatch handler, and whatever the process has pushed to itself
   template< typename H, typename M>
   void deliver( H& handler, M&& message)
   {
      handler( complete( std::forward< M>( message)));
   }
   template< typename H>
   void drain( H& handler)
   {
      for( int n = 0;; ++n)
      {
         auto c = ipc::inbound::device().cached();
         if( ! c) break;
         if( n > 50) { vex_assert( false, "messages to itself without end"); break;}
         handler( std::move( c));
      }
   }

   // the address is the path of the socket, which ends with the id
   inline strong::ipc::id from_address( const ipc::Address& address)
   {
      std::string_view path{ address.native().sun_path};
      auto hex = []( char c) { return c <= '9' ? c - '0' : c - 'a' + 10;};
      Uuid::uuid_type raw{};
      auto p = path.substr( path.rfind( '/') + 1);
      for( int i = 0; i < 16; ++i) raw[ i] = hex( p[ i * 2]) * 16 + hex( p[ i * 2 + 1]);
      return strong::ipc::id{ Uuid{ raw}};
   }
}

extern "C"
{
   // process::path
   __attribute__(( used)) const std::filesystem::path& __stub__ZN6casual6common7process4pathB5cxx11Ev() { return casual::common::environment::directory::fixed();}
   // ipc::partial::send
   __attribute__(( used)) bool __stub__ZN6casual6common13communication3ipc7partial4sendERKNS3_11DestinationERNS2_7message8complete4SendE( const world::ipc::partial::Destination& destination, world::ipc::message::complete::Send& message)
   {
      world::record( destination.ipc(), message.complete());
      return true;
   }
   // ipc::native::detail::create::domain::socket
   __attribute__(( used)) void __stub__ZN6casual6common13communication3ipc6native6detail6create6domain6socketEv( casual::common::communication::Socket* result)
   {
      new ( result) casual::common::communication::Socket{ casual::common::strong::socket::id{ 77}};
   }
   // ipc::inbound::Connector::Connector()
   __attribute__(( used)) void __stub__ZN6casual6common13communication3ipc7inbound9ConnectorC2Ev( world::ipc::inbound::Connector* self)
   {
      new ( &self->handle()) world::ipc::Handle{ casual::common::communication::Socket{ casual::common::strong::socket::id{ world::inbound_descriptor}}, world::ipc_id( world::inbound_ipc)};
   }
   __attribute__(( used)) void __stub__ZN6casual6common13communication3ipc7inbound9ConnectorD2Ev( world::ipc::inbound::Connector*) {}
   // ipc::policy::blocking::send / non::blocking::send
   __attribute__(( used)) casual::common::strong::correlation::id __stub__ZN6casual6common13communication3ipc6policy8blocking4sendERKNS1_6SocketERKNS2_7AddressERKNS2_7message8CompleteE( const casual::common::communication::Socket&, const world::ipc::Address& address, const world::Complete& complete)
   {
      world::record( world::from_address( address), complete);
      return complete.correlation();
   }
   __attribute__(( used)) casual::common::strong::correlation::id __stub__ZN6casual6common13communication3ipc6policy3non8blocking4sendERKNS1_6SocketERKNS2_7AddressERKNS2_7message8CompleteE( const casual::common::communication::Socket&, const world::ipc::Address& address, const world::Complete& complete)
   {
      world::record( world::from_address( address), complete);
      return complete.correlation();
   }
   // receive: what the harness has made incoming, if anything
   __attribute__(( used)) world::ipc::policy::cache_range_type __stub__ZN6casual6common13communication3ipc6policy8blocking7receiveERNS2_6HandleERSt6vectorINS2_7message8CompleteESaIS9_EE( world::ipc::Handle&, world::ipc::policy::cache_type& cache)
   {
      if( world::incoming.empty())
      {
         vex_cover( "blocked on a message that never comes");
         vex_discard();
      }
      cache.push_back( std::move( world::incoming.front()));
      world::incoming.pop_front();
      return world::ipc::policy::cache_range_type{ std::end( cache) - 1, std::end( cache)};
   }
   __attribute__(( used)) world::ipc::policy::cache_range_type __stub__ZN6casual6common13communication3ipc6policy3non8blocking7receiveERNS2_6HandleERSt6vectorINS2_7message8CompleteESaISA_EE( world::ipc::Handle&, world::ipc::policy::cache_type& cache)
   {
      if( world::incoming.empty())
      {
         return world::ipc::policy::cache_range_type{};
      }
      cache.push_back( std::move( world::incoming.front()));
      world::incoming.pop_front();
      return world::ipc::policy::cache_range_type{ std::end( cache) - 1, std::end( cache)};
   }

   // the managers of the domain are found: each has the ipc id of its identity, the domain manager has 9000
   __attribute__(( used)) bool __stub__ZN6casual6common13communication8instance8outbound6detail15basic_connectorILNS2_6lookup9DirectiveE0EE7connectEv( casual::common::communication::instance::outbound::detail::basic_connector< casual::common::communication::instance::lookup::Directive{}>* self)
   {
      if( world::absent && world::absent( casual::common::strong::ipc::id{ self->m_identity.id})) { self->reset( {}); return false;}
      self->reset( { casual::common::strong::process::id{ 9001}, casual::common::strong::ipc::id{ self->m_identity.id}});
      return true;
   }
   __attribute__(( used)) bool __stub__ZN6casual6common13communication8instance8outbound6detail15basic_connectorILNS2_6lookup9DirectiveE1EE7connectEv( casual::common::communication::instance::outbound::detail::basic_connector< casual::common::communication::instance::lookup::Directive{ 1}>* self)
   {
      if( world::absent && world::absent( casual::common::strong::ipc::id{ self->m_identity.id})) { self->reset( {}); return false;}
      self->reset( { casual::common::strong::process::id{ 9001}, casual::common::strong::ipc::id{ self->m_identity.id}});
      return true;
   }
   __attribute__(( used)) bool __stub__ZN6casual6common13communication8instance8outbound6domain7manager9Connector7connectEv( casual::common::communication::instance::outbound::domain::manager::Connector* self)
   {
      self->reset( world::handle( 9000));
      return true;
   }
   __attribute__(( used)) bool __stub__ZN6casual6common13communication8instance8outbound6domain7manager8optional9Connector7connectEv( casual::common::communication::instance::outbound::domain::manager::optional::Connector* self)
   {
      self->reset( world::handle( 9000));
      return true;
   }
}
