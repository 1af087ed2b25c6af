// requests from other domains: every history of requests, what the managers and callees answer, and connections that are lost or are to end
#include "gwworld.h"
#include "gateway/group/inbound/handle.h"
#include "gateway/group/inbound/state.h"

//@ bounds two connections, the first with protocol 1.2 or the current one; requests: call, call without reply, conversation, enqueue, dequeue, prepare, commit, rollback, in a transaction or not; every history of 3 (thorough: 4) events: a request, what it waits for arrives (lookup, branch, any answer), a conversation goes on or ends, the other domain agrees to disconnect (more than once too), a transaction ends, a connection is lost; up to 1 connection breaks at any send, or between events, or the callee or the queue manager is gone; then either what is in flight is answered and all connections are to end, or all are lost
//@ outside discovery, listeners, configuration, TCP itself (T02), other domains that do not follow the protocol, the payload of messages beyond a byte (N01)
//@ stubs ipc transport and Connection::send (messages recorded, or the connection fails), addresses of sockets

using namespace gww;
namespace inbound = casual::gateway::group::inbound;
using IState = inbound::State;

namespace
{
   enum class Kind { call, no_reply, conversation, enqueue, dequeue, prepare, commit, rollback};
   // connected: a conversation
   enum class Stage { flight, connected, done};
   enum class Wait { no, asked, answered, refused};

   struct Request
   {
      Kind kind;
      int connection;
      strong::correlation::id correlation;
      casual::common::transaction::ID external;
      Stage stage = Stage::flight;
      Wait lookup = Wait::no;
      Wait branch = Wait::no;
      bool passed = false;      // the callee has it
      bool discarded = false;   // the lookup has been withdrawn
      bool failed = false;      // has been answered with a failure, by the gateway itself
      bool told = false;        // callee of a conversation is told about the end
      unsigned char payload = 0;
      int answers = 0;
      int code = 0;
      bool answering = false;   // an answer from the callee is on its way
   };

   struct Link
   {
      Version version;
      bool up = true, disconnecting = false, destroyed = false;
      bool discovery = false;
      bool associated = false;
   };

   enum class Trouble { none, connection, callee, queues};

   struct World
   {
      IState state;
      inbound::handle::management_handler management = inbound::handle::management( state);
      inbound::handle::internal_handler internal = inbound::handle::internal( state);
      inbound::handle::external_handler external = inbound::handle::external( state);
      Link link[ 2];
      std::vector< Request> requests;
      // as the other domains know it (one branch each), and as it's known here
      casual::common::transaction::ID external_trid[ 2], internal_trid;
      bool branched = false;
      int breaks = 1;
      bool callee_gone = false, gone = false, queues_gone = false;

      Request* find( const strong::correlation::id& c) { for( auto& r : requests) if( r.correlation == c) return &r; return nullptr;}
      int of( strong::socket::id s) { return s == socket( 0) ? 0 : 1;}
      int of( const strong::ipc::id& i) { return i == partner( 0) ? 0 : i == partner( 1) ? 1 : -1;}
      bool flight( int n) { for( auto& r : requests) if( r.connection == n && r.stage != Stage::done) return true; return false;}
   };
   World* w = nullptr;

   strong::ipc::id callee() { return world::ipc_id( 700);}
   strong::ipc::id group() { return world::ipc_id( 720);}

   bool resource( Kind k) { return k == Kind::prepare || k == Kind::commit || k == Kind::rollback;}
   bool queue( Kind k) { return k == Kind::enqueue || k == Kind::dequeue;}

   casual::platform::binary::type data( unsigned char c) { casual::platform::binary::type r; r.push_back( static_cast< std::byte>( c)); return r;}

   // the connection is over, as the other end sees it
   void over( int n)
   {
      auto& l = w->link[ n];
      l.up = false; l.disconnecting = false; l.associated = false;
      // nobody left that has the transaction
      if( ! w->link[ 0].associated && ! w->link[ 1].associated) w->branched = false;
   }

   bool breaks( strong::socket::id s, const Frame&)
   {
      auto n = w->of( s);
      vex_assert( w->link[ n].up, "nothing is sent on a connection that is gone");
      if( ! w->breaks || ! vex_choose( 2, "the connection breaks")) return false;
      --w->breaks;
      over( n);
      vex_cover( "a connection breaks at a send");
      return true;
   }

   bool fails( const strong::ipc::id& destination, const world::Complete& complete)
   {
      if( complete.type() == Type::transaction_active_request)
      {
         auto request = world::as< message::transaction::active::Request>( complete);
         message::transaction::active::Reply reply;
         reply.correlation = request.correlation;
         reply.gtrids = request.gtrids;
         world::incoming.push_back( world::complete( reply));
      }
      if( destination == callee() || destination == group())
      {
         if( ! w->callee_gone && w->breaks && vex_choose( 2, "the callee is gone")) { --w->breaks; w->callee_gone = w->gone = true; vex_cover( "the callee is gone");}
         return w->callee_gone;
      }
      if( destination == queue_manager())
      {
         if( ! w->queues_gone && w->breaks && vex_choose( 2, "the queue manager is gone")) { --w->breaks; w->queues_gone = true; vex_cover( "the queue manager is gone");}
         return w->queues_gone;
      }
      return false;
   }

   // what a callee gets
   template< typename M>
   void passed( const world::Sent& s, M m)
   {
      auto r = w->find( m.correlation);
      vex_assert( r && w->link[ r->connection].up, "a request of a connection");
      vex_assert( ! r->passed && r->stage == Stage::flight && ! r->failed, "a request is passed on once");
      vex_assert( m.process.ipc == partner( r->connection), "the answer is for the connection");
      vex_assert( bool( m.trid) == bool( r->external), "in a transaction if and only if it was");
      if( r->external) vex_assert( w->branched && m.trid == w->internal_trid, "in the branch of this domain");
      if( ! resource( r->kind))
      {
         vex_assert( r->lookup == Wait::answered && ! r->discarded, "to who was found");
         vex_assert( s.destination == ( queue( r->kind) ? group() : callee()), "to who was found");
      }
      else vex_assert( s.destination == transaction_manager(), "the transaction manager");
      r->passed = true;
      if( r->kind == Kind::no_reply) r->stage = Stage::done;
   }

   void observe();

   // what the gateway tells itself
   void itself( int n, const world::Sent& s)
   {
      if( ! w->link[ n].up) return;
      auto r = w->find( s.complete.correlation());
      vex_assert( r && r->connection == n && r->stage == Stage::flight, "a failure of a request");
      // there are no queues if there is no queue manager
      if( s.complete.type() == Type::queue_manager_queue_lookup_reply) { vex_assert( r->lookup == Wait::no && w->queues_gone, "a lookup nobody can answer"); r->lookup = Wait::refused;}
      else r->failed = true;
      w->internal( world::copy( s.complete), internal( n));
   }

   void observe()
   {
      for( int turns = 0; ! world::sent.empty() || ! gww::out.empty(); ++turns)
      {
         vex_assert( turns < 20, "messages to itself end");
         auto sent = std::exchange( world::sent, {});
         auto out = std::exchange( gww::out, {});

         // what the other domains see
         for( auto& o : out)
         {
            auto n = w->of( o.socket);
            if( o.frame.type() == Type::gateway_domain_disconnect_request) continue;
            auto r = w->find( o.frame.correlation());
            vex_assert( r && r->connection == n, "an answer goes to the domain that asked");
            bool old = w->link[ n].version < Version::v1_3;
            auto answered = [&]( bool failure)
            {
               vex_assert( r->stage == Stage::flight, "a request is answered once");
               vex_assert( r->answering != r->failed, "an answer, or a failure");
               vex_assert( r->failed == failure, "a failure is a failure");
               ++r->answers;
               r->stage = Stage::done;
            };
            auto xatmi = [&]( auto code)
            {
               answered( r->failed);
               if( ! r->failed) vex_assert( static_cast< int>( code) == r->code, "the answer is what the callee answered");
               else if( r->lookup == Wait::refused) vex_assert( static_cast< int>( code) == r->code, "why the request failed");
               else vex_assert( code == code::xatmi::service_error, "the callee is gone");
            };
            auto transaction = [&]( auto m)
            {
               answered( r->failed);
               vex_assert( m.trid == r->external, "the transaction is the one the other domain knows");
               if( r->failed) vex_assert( m.state == code::xa::protocol, "an unknown transaction");
               else vex_assert( static_cast< int>( m.state) == r->code, "the answer is what the transaction manager answered");
            };
            bool other = false;
            switch( o.frame.type())
            {
               case Type::service_reply: case Type::service_reply_v2:
               {
                  vex_assert( r->kind == Kind::call, "a call is answered");
                  vex_assert( old == ( o.frame.type() == Type::service_reply_v2), "in the protocol of the connection");
                  auto check = [&]( auto& m)
                  {
                     if( ! r->failed) vex_assert( m.buffer.data.size() == 1 && static_cast< unsigned char>( m.buffer.data[ 0]) == r->payload, "the answer is not changed");
                  };
                  if( old) { auto m = as< message::service::call::v1_2::Reply>( o.frame); check( m); xatmi( m.code.result);}
                  else { auto m = as< message::service::call::Reply>( o.frame); check( m); xatmi( m.code.result);}
                  break;
               }
               case Type::conversation_connect_reply:
               {
                  vex_assert( r->kind == Kind::conversation, "a connect is answered");
                  auto m = as< message::conversation::connect::Reply>( o.frame);
                  xatmi( m.code.result);
                  if( m.code.result == code::xatmi::absent) r->stage = Stage::connected;
                  break;
               }
               case Type::conversation_send:
               {
                  auto m = as< message::conversation::callee::Send>( o.frame);
                  vex_assert( r->kind == Kind::conversation && r->stage == Stage::connected && static_cast< int>( m.code.result) == r->code, "a conversation goes on");
                  if( m.duplex == message::conversation::duplex::Type::terminated) { r->stage = Stage::done; r->told = true;}
                  break;
               }
               case Type::queue_group_enqueue_reply: case Type::queue_group_enqueue_reply_v1_2:
               {
                  vex_assert( r->kind == Kind::enqueue, "an enqueue is answered");
                  vex_assert( old == ( o.frame.type() == Type::queue_group_enqueue_reply_v1_2), "in the protocol of the connection");
                  if( old) answered( ! as< qmessage::group::enqueue::v1_2::Reply>( o.frame).id);
                  else answered( ! as< qmessage::group::enqueue::Reply>( o.frame).id);
                  break;
               }
               case Type::queue_group_dequeue_reply: case Type::queue_group_dequeue_reply_v1_2:
               {
                  vex_assert( r->kind == Kind::dequeue, "a dequeue is answered");
                  vex_assert( old == ( o.frame.type() == Type::queue_group_dequeue_reply_v1_2), "in the protocol of the connection");
                  if( old) answered( as< qmessage::group::dequeue::v1_2::Reply>( o.frame).message.empty());
                  else answered( ! as< qmessage::group::dequeue::Reply>( o.frame).message);
                  break;
               }
               case Type::transaction_resource_prepare_reply: vex_assert( r->kind == Kind::prepare, "a prepare is answered"); transaction( as< message::transaction::resource::prepare::Reply>( o.frame)); break;
               case Type::transaction_resource_commit_reply: vex_assert( r->kind == Kind::commit, "a commit is answered"); transaction( as< message::transaction::resource::commit::Reply>( o.frame)); break;
               case Type::transaction_resource_rollback_reply: vex_assert( r->kind == Kind::rollback, "a rollback is answered"); transaction( as< message::transaction::resource::rollback::Reply>( o.frame)); break;
               default: other = true; break;
            }
            vex_assert( ! other, "nothing else is sent to another domain");
         }

         // what the rest of this domain sees
         for( auto& s : sent)
         {
            if( auto n = w->of( s.destination); n >= 0) { itself( n, s); continue;}
            auto r = w->find( s.complete.correlation());
            switch( s.complete.type())
            {
               case Type::service_name_lookup_request:
               {
                  auto m = world::as< message::service::lookup::Request>( s.complete);
                  vex_assert( r && r->lookup == Wait::no && s.destination == service_manager() && m.process.ipc == partner( r->connection), "a service is looked up once");
                  using Context = decltype( m.context.requester);
                  using Semantic = decltype( m.context.semantic);
                  vex_assert( m.requested == "s" && m.context.requester == ( w->link[ r->connection].discovery ? Context::external_discovery : Context::external), "discovery only if configured");
                  vex_assert( m.context.semantic == ( r->kind == Kind::no_reply ? Semantic::no_reply : Semantic::regular), "with the semantics of the call");
                  vex_assert( m.gtrid.range().empty() == ! r->external, "in a transaction or not");
                  r->lookup = Wait::asked;
                  break;
               }
               case Type::queue_manager_queue_lookup_request:
               {
                  auto m = world::as< qmessage::lookup::Request>( s.complete);
                  vex_assert( r && r->lookup == Wait::no && s.destination == queue_manager() && m.process.ipc == partner( r->connection) && m.name == "q", "a queue is looked up once");
                  r->lookup = Wait::asked;
                  break;
               }
               case Type::transaction_inbound_branch_request:
               {
                  auto m = world::as< message::transaction::inbound::branch::Request>( s.complete);
                  vex_assert( r && r->branch == Wait::no && s.destination == transaction_manager() && m.process.ipc == partner( r->connection), "a branch for the connection");
                  vex_assert( m.gtrid == casual::common::transaction::global::ID{ casual::common::transaction::id::range::global( w->internal_trid)}, "of the transaction");
                  r->branch = Wait::asked;
                  break;
               }
               case Type::service_call: passed( s, [&]
                  {
                     auto m = world::as< message::service::call::callee::Request>( s.complete);
                     vex_assert( r && ( r->kind == Kind::call || r->kind == Kind::no_reply), "a call");
                     vex_assert( m.service.name == "real" && m.service.requested == "s", "the service that was found");
                     vex_assert( m.buffer.data.size() == 1 && static_cast< unsigned char>( m.buffer.data[ 0]) == r->payload, "the call is not changed");
                     vex_assert( m.deadline.remaining == std::chrono::seconds{ 3}, "the deadline is passed on");
                     using Flag = message::service::call::request::Flag;
                     vex_assert( flag::contains( m.flags, Flag::no_reply) == ( r->kind == Kind::no_reply), "flags are not changed");
                     return m;
                  }()); break;
               case Type::conversation_connect_request: passed( s, [&]
                  {
                     auto m = world::as< message::conversation::connect::callee::Request>( s.complete);
                     vex_assert( r && r->kind == Kind::conversation && m.service.name == "real" && m.duplex == message::conversation::duplex::Type::receive, "the connect is not changed");
                     return m;
                  }()); break;
               case Type::queue_group_enqueue_request: passed( s, [&]
                  {
                     auto m = world::as< qmessage::group::enqueue::Request>( s.complete);
                     vex_assert( r && r->kind == Kind::enqueue && m.name == "q" && static_cast< unsigned char>( m.message.payload.data.at( 0)) == r->payload, "the message is not changed");
                     return m;
                  }()); break;
               case Type::queue_group_dequeue_request: passed( s, [&]
                  {
                     auto m = world::as< qmessage::group::dequeue::Request>( s.complete);
                     vex_assert( r && r->kind == Kind::dequeue && m.name == "q", "the request is not changed");
                     return m;
                  }()); break;
               case Type::transaction_resource_prepare_request: passed( s, world::as< message::transaction::resource::prepare::Request>( s.complete)); break;
               case Type::transaction_resource_commit_request: passed( s, world::as< message::transaction::resource::commit::Request>( s.complete)); break;
               case Type::transaction_resource_rollback_request: passed( s, world::as< message::transaction::resource::rollback::Request>( s.complete)); break;
               case Type::conversation_send:
               {
                  auto m = world::as< message::conversation::callee::Send>( s.complete);
                  vex_assert( r && s.destination == callee() && r->passed && m.code.user == 9, "a conversation goes on with the callee");
                  break;
               }
               case Type::conversation_disconnect:
               {
                  vex_assert( r && s.destination == callee() && r->passed && ! r->told, "the callee is told about the end once");
                  r->told = true;
                  break;
               }
               case Type::service_name_lookup_discard_request:
               {
                  auto m = world::as< message::service::lookup::discard::Request>( s.complete);
                  vex_assert( r && ! r->passed && s.destination == service_manager() && m.requested == "s" && ! w->link[ r->connection].up, "a lookup is withdrawn if the request is not to be passed on");
                  r->discarded = true;
                  vex_cover( "a lookup is withdrawn");
                  break;
               }
               case Type::event_ipc_destroyed:
               {
                  auto m = world::as< message::event::ipc::Destroyed>( s.complete);
                  auto n = w->of( m.process.ipc);
                  vex_assert( n >= 0 && ! w->link[ n].destroyed, "the end of a connection is told once");
                  w->link[ n].destroyed = true;
                  over( n);
                  break;
               }
               default: break;
            }
         }
      }
      // connection lost is logged only
      while( world::ipc::inbound::device().cached()) {}

      for( int n = 0; n < 2; ++n)
      {
         auto& l = w->link[ n];
         if( l.up) { vex_assert( ! l.destroyed, "the end of a connection is told when it has ended"); continue;}
         vex_assert( l.destroyed, "the end of a connection is told to all");
         for( auto& r : w->requests)
         {
            if( r.connection != n) continue;
            if( r.kind == Kind::call || r.kind == Kind::no_reply || r.kind == Kind::conversation)
               if( r.lookup == Wait::asked || r.lookup == Wait::answered) vex_assert( r.passed || r.discarded || w->gone, "who is looked up for a connection that is lost is let go");
            if( r.kind == Kind::conversation && r.passed && ( r.stage != Stage::done || r.answers == 0)) vex_assert( r.told || w->gone, "the callee of a conversation is told when the connection is lost");
            r.stage = Stage::done;
         }
      }
   }

   void external( int n, Frame frame) { gww::received( frame); w->external( frame, socket( n));}

   void ready( Request& r)
   {
      if( r.kind == Kind::no_reply && r.lookup == Wait::refused && r.branch != Wait::asked) r.stage = Stage::done;
      if( r.lookup == Wait::answered && r.branch != Wait::asked && w->link[ r.connection].up)
      {
         if( r.kind == Kind::no_reply && w->callee_gone) r.stage = Stage::done;
         else vex_assert( r.passed || r.failed, "a request is passed on as soon as it can be");
      }
      if( r.lookup == Wait::refused && r.branch != Wait::asked && r.kind != Kind::no_reply && w->link[ r.connection].up) vex_assert( r.failed, "a request that can't be done fails");
      if( r.failed && w->link[ r.connection].up) vex_assert( r.stage == Stage::done, "a request that has failed is answered");
   }

   void request( Kind kind, int n, bool transactional)
   {
      auto& l = w->link[ n];
      bool old = l.version < Version::v1_3;
      Request r;
      r.kind = kind;
      r.connection = n;
      r.correlation = strong::correlation::id::generate();
      if( transactional) r.external = w->external_trid[ n];
      r.payload = vex_range( 0, 255, "payload");
      w->requests.push_back( r);
      if( transactional && w->branched && ! resource( kind)) l.associated = true;

      process::Handle other{ strong::process::id{ 77}, world::ipc_id( 77)};
      auto deliver = [&]( auto&& m) { m.correlation = r.correlation; external( n, frame( m));};

      switch( kind)
      {
         case Kind::call: case Kind::no_reply:
         {
            message::service::call::callee::Request m{ other};
            m.trid = r.external;
            m.service.name = "s";
            m.deadline.remaining = std::chrono::seconds{ 3};
            if( kind == Kind::no_reply) m.flags = message::service::call::request::Flag::no_reply;
            m.buffer = buffer::Payload{ "X_OCTET/", data( r.payload)};
            m.correlation = r.correlation;
            if( old) deliver( gmessage::protocol::transform::to< message::service::call::v1_2::callee::Request>( std::move( m)));
            else deliver( m);
            break;
         }
         case Kind::conversation:
         {
            message::conversation::connect::callee::Request m{ other};
            m.trid = r.external;
            m.service.name = "s";
            m.duplex = message::conversation::duplex::Type::receive;
            m.buffer = buffer::Payload{ "X_OCTET/", data( r.payload)};
            m.correlation = r.correlation;
            if( old) deliver( gmessage::protocol::transform::to< message::conversation::connect::v1_2::callee::Request>( std::move( m)));
            else deliver( m);
            break;
         }
         case Kind::enqueue:
         {
            qmessage::group::enqueue::Request m{ other};
            m.trid = r.external;
            m.name = "q";
            m.message.payload = buffer::Payload{ "X_OCTET/", data( r.payload)};
            deliver( m);
            break;
         }
         case Kind::dequeue:
         {
            qmessage::group::dequeue::Request m{ other};
            m.trid = r.external;
            m.name = "q";
            deliver( m);
            break;
         }
         case Kind::prepare: { message::transaction::resource::prepare::Request m{ other}; m.trid = r.external; deliver( m); break;}
         case Kind::commit: { message::transaction::resource::commit::Request m{ other}; m.trid = r.external; deliver( m); break;}
         case Kind::rollback: { message::transaction::resource::rollback::Request m{ other}; m.trid = r.external; deliver( m); break;}
      }
      observe();
      auto& result = w->requests.back();
      if( ! l.up) return;
      if( resource( kind)) vex_assert( result.passed == w->branched && ( w->branched || result.stage == Stage::done), "a known transaction is the business of the transaction manager");
      else
      {
         vex_assert( result.lookup == Wait::asked || ( queue( kind) && w->queues_gone && result.lookup == Wait::refused), "who is to do it is looked up");
         ready( result);
         vex_assert( ! transactional || w->branched || result.branch == Wait::asked, "a transaction is branched");
      }
   }

   bool waits_lookup( const Request& r) { return r.lookup == Wait::asked && ! r.discarded && w->link[ r.connection].up;}
   bool waits_branch( const Request& r) { return r.branch == Wait::asked && w->link[ r.connection].up;}
   bool waits_callee( const Request& r) { return r.passed && r.stage != Stage::done && w->link[ r.connection].up && ! w->callee_gone;}
   bool waits( const Request& r) { return waits_lookup( r) || waits_branch( r) || waits_callee( r);}

   void lookup( Request& r, bool refuse)
   {
      auto n = r.connection;
      if( queue( r.kind))
      {
         qmessage::lookup::Reply m;
         m.correlation = r.correlation;
         m.name = "q";
         if( ! refuse) m.process = process::Handle{ strong::process::id{ 720}, group()};
         r.lookup = refuse ? Wait::refused : Wait::answered;
         w->internal( world::complete( m), internal( n));
      }
      else
      {
         message::service::lookup::Reply m;
         m.correlation = r.correlation;
         m.service.name = "real";
         using Enum = decltype( m.state);
         if( refuse)
         {
            m.state = vex_choose( 2, "timeout") ? Enum::timeout : Enum::absent;
            m.service.name = "s";
            r.code = static_cast< int>( m.state == Enum::timeout ? code::xatmi::timeout : code::xatmi::no_entry);
            r.lookup = Wait::refused;
         }
         else
         {
            m.process = process::Handle{ strong::process::id{ 700}, callee()};
            r.lookup = Wait::answered;
         }
         w->internal( world::complete( m), internal( n));
      }
      observe();
      ready( *w->find( r.correlation));
   }

   void branch( Request& r)
   {
      message::transaction::inbound::branch::Reply m;
      m.correlation = r.correlation;
      m.trid = w->internal_trid;
      r.branch = Wait::answered;
      w->branched = true;
      for( auto& o : w->requests) if( o.external && o.branch != Wait::asked && ! resource( o.kind) && w->link[ o.connection].up) w->link[ o.connection].associated = true;
      w->internal( world::complete( m), internal( r.connection));
      observe();
      ready( *w->find( r.correlation));
   }

   int any_code() { return vex_range( 0, 24, "code");}

   void answer( Request& r, bool end = false)
   {
      auto n = r.connection;
      auto correlation = r.correlation;
      r.answering = true;
      auto deliver = [&]( auto& m) { m.correlation = correlation; w->internal( world::complete( m), internal( n));};
      auto transaction = [&]( auto m)
      {
         m.trid = w->internal_trid;
         r.code = vex_range( 100, 107, "xa code");
         m.state = static_cast< code::xa>( r.code);
         deliver( m);
      };
      switch( r.kind)
      {
         case Kind::call:
         {
            message::service::call::Reply m;
            r.code = any_code();
            m.code.result = static_cast< code::xatmi>( r.code);
            m.buffer = buffer::Payload{ "X_OCTET/", data( r.payload)};
            deliver( m);
            break;
         }
         case Kind::conversation:
         {
            if( r.stage == Stage::flight)
            {
               message::conversation::connect::Reply m;
               if( vex_choose( 2, "refused")) { r.code = any_code(); vex_assume( r.code != 0); if( r.code == static_cast< int>( code::xatmi::absent)) r.code = r.code;}
               m.code.result = static_cast< code::xatmi>( r.code);
               if( m.code.result == code::xatmi::ok) { m.code.result = code::xatmi::absent; r.code = static_cast< int>( code::xatmi::absent);}
               if( m.code.result != code::xatmi::absent) r.told = true; // it was the callee who ended it
               deliver( m);
            }
            else
            {
               message::conversation::callee::Send m;
               r.code = any_code();
               m.code.result = static_cast< code::xatmi>( r.code);
               if( end || vex_choose( 2, "ends")) m.duplex = message::conversation::duplex::Type::terminated;
               deliver( m);
            }
            break;
         }
         case Kind::enqueue: { qmessage::group::enqueue::Reply m; m.id = uuid::make(); deliver( m); break;}
         case Kind::dequeue: { qmessage::group::dequeue::Reply m; m.message.emplace(); deliver( m); break;}
         case Kind::prepare: transaction( message::transaction::resource::prepare::Reply{}); break;
         case Kind::commit: transaction( message::transaction::resource::commit::Reply{}); break;
         case Kind::rollback: transaction( message::transaction::resource::rollback::Reply{}); break;
         case Kind::no_reply: break;
      }
      observe();
      auto& now = *w->find( correlation);
      vex_assert( now.answers == 1 || ! w->link[ n].up, "the answer is passed on");
   }

   void progress( Request& r, bool free)
   {
      int options = 0, option[ 3];
      if( waits_lookup( r)) option[ options++] = 0;
      if( waits_branch( r)) option[ options++] = 1;
      if( waits_callee( r)) option[ options++] = 2;
      switch( option[ free && options > 1 ? vex_choose( options, "progress") : 0])
      {
         case 0: lookup( r, free && vex_choose( 2, "not found")); break;
         case 1: branch( r); break;
         default: answer( r, ! free); break;
      }
   }

   void caller( Request& r, bool end)
   {
      if( end)
      {
         message::conversation::Disconnect m;
         m.correlation = r.correlation;
         r.stage = Stage::done;
         external( r.connection, frame( m));
         observe();
         vex_assert( w->find( r.correlation)->told || w->callee_gone, "the callee is told when the caller ends a conversation");
         vex_cover( "the caller ends a conversation");
      }
      else
      {
         message::conversation::callee::Send m;
         m.correlation = r.correlation;
         m.code.user = 9;
         external( r.connection, frame( m));
         observe();
         vex_cover( "a conversation");
      }
   }

   void lose( int n)
   {
      over( n);
      auto lost = inbound::handle::connection::lost( w->state, socket( n));
      vex_assert( lost.configuration.address == ( n == 0 ? "a" : "b"), "what is lost is what was connected");
      observe();
      vex_cover( "a connection is lost");
   }

   void disassociate()
   {
      message::event::transaction::Disassociate m{ world::handle( 900)};
      m.gtrid = casual::common::transaction::global::ID{ casual::common::transaction::id::range::global( w->internal_trid)};
      world::deliver( w->management, m);
      w->branched = false;
      for( auto& l : w->link) l.associated = false;
      observe();
   }

   // idle, or when the other domain agrees: n is the one that does
   void ended( int n, bool before[ 2], bool busy[ 2])
   {
      for( auto& s : world::sent)
         if( s.complete.type() == Type::event_ipc_destroyed)
         {
            auto n = w->of( world::as< message::event::ipc::Destroyed>( s.complete).process.ipc);
            vex_assert( n >= 0 && before[ n], "a connection ends when it is to");
            vex_assert( ! busy[ n], "a connection with something in flight is kept");
            over( n);
         }
      for( int i = 0; i < 2; ++i)
         if( ( n < 0 || n == i) && before[ i] && ! busy[ i]) { vex_assert( ! w->link[ i].up, "a connection that is to end, and has nothing in flight, ends"); vex_cover( "disconnected when nothing is in flight");}
      observe();
   }

   void idle()
   {
      bool before[ 2], busy[ 2];
      for( int n = 0; n < 2; ++n) { before[ n] = w->link[ n].disconnecting; busy[ n] = w->flight( n) || w->link[ n].associated;}
      inbound::handle::idle( w->state);
      ended( -1, before, busy);
   }

   // the other domain agrees to disconnect
   void agrees( int n)
   {
      bool before[ 2], busy[ 2];
      w->link[ n].disconnecting = true;
      for( int n = 0; n < 2; ++n) { before[ n] = w->link[ n].disconnecting; busy[ n] = w->flight( n) || w->link[ n].associated;}
      gmessage::domain::disconnect::Reply m;
      m.correlation = strong::correlation::id::generate();
      external( n, frame( m));
      ended( n, before, busy);
   }

   enum class Preface { none, conversation, transaction};

   void world_of( Preface preface, int events, bool deep)
   {
      world::ipc::inbound::device();
      w = new World;
      world::fails = nullptr;
      gww::breaks = nullptr;
      w->external_trid[ 0] = casual::common::transaction::id::create( world::handle( 800));
      w->external_trid[ 1] = casual::common::transaction::id::branch( w->external_trid[ 0]);
      w->internal_trid = casual::common::transaction::id::branch( w->external_trid[ 0]);

      w->link[ 0].version = vex_choose( 2, "old protocol") ? Version::v1_2 : Version::current;
      w->link[ 1].version = Version::current;
      {
         casual::configuration::model::gateway::inbound::Connection c;
         c.address = "a";
         connect( w->state, w->management, 0, w->link[ 0].version, c);
         c.address = "b";
         connect( w->state, w->management, 1, w->link[ 1].version, c);
      }
      world::sent.clear();
      while( world::ipc::inbound::device().cached()) {}
      gww::breaks = &breaks;
      world::fails = &fails;
      world::absent = []( const strong::ipc::id& id) { return id == queue_manager() && w->queues_gone;};

      bool ended = false;
      int goodbyes = 2;
      if( preface == Preface::conversation)
      {
         request( Kind::conversation, 0, vex_choose( 2, "transaction"));
         auto& r = w->requests[ 0];
         while( w->link[ 0].up && waits( r) && r.stage == Stage::flight) progress( r, false);
      }
      else if( preface == Preface::transaction)
      {
         request( vex_choose( 2, "queue") ? Kind::dequeue : Kind::call, 0, true);
         auto& r = w->requests[ 0];
         for( int i = 0; i < 2 && waits( r); ++i) progress( r, false);
      }
      for( int e = 0; e < events; ++e)
      {
         switch( vex_choose( 6, "event"))
         {
            case 0: // a request
            {
               // the first request is on the first connection, if they are alike
               auto n = w->requests.empty() && w->link[ 0].version == Version::current ? 0 : vex_choose( 2, "connection");
               if( ! w->link[ n].up) return;
               auto kind = Kind::call;
               if( preface == Preface::none && ( deep || e == 0)) kind = static_cast< Kind>( vex_choose( 6, "kind"));
               else if( preface == Preface::transaction) { auto c = vex_choose( 4, "kind"); kind = c == 0 ? Kind::call : static_cast< Kind>( static_cast< int>( Kind::prepare) + c - 1);}
               bool transactional = resource( kind) || kind == Kind::dequeue || ( ( kind == Kind::call || ( deep && kind == Kind::conversation)) && vex_choose( 2, "transaction"));
               if( transactional && ended) return;
               request( kind, n, transactional);
               break;
            }
            case 1: // what is waited for
            {
               std::vector< Request*> candidates;
               for( auto& r : w->requests) if( waits( r)) candidates.push_back( &r);
               if( candidates.empty()) return;
               progress( *candidates[ candidates.size() == 1 ? 0 : vex_choose( candidates.size(), "which")], true);
               break;
            }
            case 2: // the caller of a conversation
            {
               Request* found = nullptr;
               for( auto& r : w->requests) if( r.stage == Stage::connected && w->link[ r.connection].up) found = &r;
               if( ! found) return;
               caller( *found, vex_choose( 2, "ends"));
               break;
            }
            case 3: // a connection is lost
            {
               if( ! w->breaks--) return;
               auto n = vex_choose( 2, "connection");
               if( ! w->link[ n].up) return;
               lose( n);
               break;
            }
            case 4: // agrees to disconnect, and soon after there is nothing to do
            {
               if( ! goodbyes--) return;
               auto n = vex_choose( 2, "connection");
               if( ! w->link[ n].up) return;
               agrees( n);
               idle();
               break;
            }
            case 5: // the transaction is over, nothing to do
            {
               if( ended || w->requests.empty()) return;
               for( auto& r : w->requests) if( r.external && r.stage != Stage::done) return;
               ended = true;
               disassociate();
               idle();
               break;
            }
         }
      }

      if( vex_choose( 2, "all lost"))
      {
         w->breaks = 0;
         for( int n = 0; n < 2; ++n) if( w->link[ n].up) lose( n);
      }
      else
      {
         inbound::handle::shutdown( w->state);
         observe();
         w->breaks = 0;
         for( int n = 0; n < 2; ++n) if( w->link[ n].up) agrees( n);
         idle();
         for( auto& r : w->requests)
            for( int i = 0; i < 5 && w->link[ r.connection].up && waits( r); ++i) progress( r, false);
         // the service manager or queue manager answers for a callee that is gone
         if( w->callee_gone)
            for( auto& r : w->requests) if( w->link[ r.connection].up && r.passed && r.stage != Stage::done) { if( r.stage == Stage::connected) caller( r, true); else { w->callee_gone = false; answer( r, true); w->callee_gone = true; if( r.stage == Stage::connected) caller( r, true);}}
         idle();
         disassociate();
         idle();
         for( auto& l : w->link) vex_assert( ! l.up, "shut down when nothing is in flight");
         vex_assert( w->state.done(), "done when nothing is in flight");
      }
      for( auto& r : w->requests) vex_assert( r.stage == Stage::done, "every request is settled");
      vex_assert( w->state.tasks.empty() && w->state.transaction_cache.empty() && w->state.pending.disconnects.empty(), "nothing is left when all is settled");
      vex_cover( "settled");
   }
}

VEX_ENTRY( histories) { world_of( Preface::none, 3, false);}
VEX_ENTRY( conversations) { world_of( Preface::conversation, 2, false);}
VEX_ENTRY( transactions) { world_of( Preface::transaction, 2, false);}
VEX_ENTRY_THOROUGH( deeper) { world_of( Preface::none, 4, true);}
VEX_ENTRY_THOROUGH( deeper_conversations) { world_of( Preface::conversation, 3, true);}
VEX_ENTRY_THOROUGH( deeper_transactions) { world_of( Preface::transaction, 3, true);}
