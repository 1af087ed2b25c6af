// a gateway group with connections to other domains: what goes out on a connection is recorded (or the connection fails),
// what comes in is what the harness delivers
#pragma once
#include "ipcworld.h"
#include "gateway/group/tcp.h"
#include "gateway/group/connection.h"
#include "gateway/message.h"
#include "gateway/message/protocol.h"
#include "gateway/message/protocol/transform.h"
#include "queue/common/ipc/message.h"
#include "domain/message/discovery.h"
#include "domain/discovery/api.h"
#include "common/message/service.h"
#include "common/message/conversation.h"
#include "common/message/transaction.h"
#include "common/message/event.h"

namespace gww
{
   using namespace casual::common;
   namespace message = casual::common::message;
   namespace gmessage = casual::gateway::message;
   namespace qmessage = casual::queue::ipc::message;
   namespace dmessage = casual::domain::message;
   using Version = gmessage::protocol::Version;
   using Frame = casual::common::communication::tcp::message::Complete;
   using Connection = casual::gateway::group::tcp::Connection;
   using Type = message::Type;

   struct Out
   {
      strong::socket::id socket;
      Frame frame;
   };

   inline std::vector< Out> out;
   // when set: decides if the connection fails when this is sent
   inline bool (*breaks)( strong::socket::id, const Frame&) = nullptr;

   inline Frame copy( const Frame& f)
   {
      auto payload = f.payload;
      return Frame{ f.type(), f.correlation(), std::move( payload)};
   }

   // as when all of it has been received
   inline void received( Frame& f) { f.offset = casual::common::communication::tcp::message::header::size + f.payload.size();}

   template< typename M>
   M as( const Frame& f)
   {
      auto other = copy( f);
      M message;
      serialize::native::complete( other, message);
      return message;
   }

   template< typename M>
   Frame frame( M&& message) { return serialize::native::complete< Frame>( std::forward< M>( message));}

   // the managers
   inline strong::ipc::id service_manager() { return strong::ipc::id{ communication::instance::identity::service::manager.id};}
   inline strong::ipc::id transaction_manager() { return strong::ipc::id{ communication::instance::identity::transaction::manager.id};}
   inline strong::ipc::id queue_manager() { return strong::ipc::id{ communication::instance::identity::queue::manager.id};}

   // connect a domain
   template< typename State, typename Handler, typename Configuration>
   void connect( State& state, Handler& management, int n, Version version, Configuration configuration)
   {
      world::inbound_ipc = 5000 + n;
      world::inbound_descriptor = 200 + n;
      Process connector{ strong::process::id{ 600 + n}};
      state.connections.pending().add( std::move( connector), communication::Socket{ strong::socket::id{ 100 + n}}, std::move( configuration));
      gmessage::domain::Connected message;
      message.connector = strong::process::id{ 600 + n};
      message.version = version;
      message.domain.name = "remote";
      Uuid::uuid_type raw{}; raw[ 0] = 0xd0; raw[ 15] = n;
      message.domain.id = strong::domain::id{ Uuid{ raw}};
      world::deliver( management, message);
   }

   inline strong::socket::id socket( int n) { return strong::socket::id{ 100 + n};}
   inline strong::ipc::descriptor::id internal( int n) { return strong::ipc::descriptor::id{ 200 + n};}
   inline strong::ipc::id partner( int n) { return world::ipc_id( 5000 + n);}
}

extern "C"
{
   __attribute__(( used)) int __weak_fcntl( int, int, ...) { return 0;}
   // Connection::send
   __attribute__(( used)) casual::common::strong::correlation::id __stub__ZN6casual7gateway5group3tcp10Connection4sendERNS_6common13communication6select9DirectiveEONS5_3tcp7message8CompleteE( gww::Connection* self, casual::common::communication::select::Directive&, gww::Frame&& frame)
   {
      auto socket = self->descriptor();
      if( gww::breaks && gww::breaks( socket, frame))
         casual::common::code::raise::error( casual::common::code::casual::communication_unavailable, "broken");
      gww::out.push_back( gww::Out{ socket, gww::copy( frame)});
      return frame.correlation();
   }
   // the addresses, for the log
   __attribute__(( used)) void __stub__ZN6casual6common13communication3tcp6socket7address4hostERKNS1_6SocketE( casual::common::communication::tcp::Address* result, const casual::common::communication::Socket&) { new ( result) casual::common::communication::tcp::Address{};}
   __attribute__(( used)) void __stub__ZN6casual6common13communication3tcp6socket7address4peerERKNS1_6SocketE( casual::common::communication::tcp::Address* result, const casual::common::communication::Socket&) { new ( result) casual::common::communication::tcp::Address{};}
   __attribute__(( used)) void __stub__ZN6casual6common7ProcessD2Ev( casual::common::Process*) {}
}
