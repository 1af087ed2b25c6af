// requests to other domains: every history of requests, replies, and connections that are lost or are to end
#include "gwworld.h"
#include "gateway/group/outbound/handle.h"
#include "gateway/group/outbound/state.h"

//@ bounds two connections, the first with protocol 1.2 or the current one; requests: call, call without reply, conversation, enqueue, dequeue, prepare, commit, rollback, discovery, in a transaction or not; every history of 3 (thorough: 4) events: a request, the other domain answers (any result code) or sends a reply nobody waits for, a conversation goes on or ends (from either side), the other domain wants to disconnect, the transaction ends, nothing to do; up to 1 connection breaks at any send, or between events; then either what is in flight is answered and the group is shut down, or all connections are lost
//@ outside reconnect, configuration, topology and discovery registration beyond that they are sent, TCP itself (T02), the payload of messages between domains beyond a byte (N01)
//@ stubs ipc transport and Connection::send (messages recorded, or the connection fails), addresses of sockets

using namespace gww;
namespace outbound = casual::gateway::group::outbound;
using OState = outbound::State;

namespace
{
   enum class Kind { call, no_reply, conversation, enqueue, dequeue, prepare, discovery, commit, rollback};
   enum class Stage { flight, connected, done};

   struct Request
   {
      Kind kind;
      int connection;
      process::Handle caller;
      strong::correlation::id correlation;
      casual::common::transaction::ID trid;
      Stage stage = Stage::flight;
      int answers = 0;
      bool sent = false;
      bool frame_pending = false;
      unsigned char payload = 0;
   };

   struct Link
   {
      Version version;
      bool up = true, disconnecting = false;
      bool destroyed = false, reset_services = false, reset_queues = false;
      int lost = 0;
      bool involved = false;   // TM knows about the transaction
      bool associated = false; // a request of the transaction has been sent, and it has not ended
   };

   struct World
   {
      OState state;
      outbound::handle::management_handler management = outbound::handle::management( state);
      outbound::handle::internal_handler internal = outbound::handle::internal( state);
      outbound::handle::external_handler external = outbound::handle::external( state);
      Link link[ 2];
      std::vector< Request> requests;
      casual::common::transaction::ID trid;
      int breaks = 1;

      Request* find( const strong::correlation::id& c) { for( auto& r : requests) if( r.correlation == c) return &r; return nullptr;}
      int of( strong::socket::id s) { return s == socket( 0) ? 0 : 1;}
      int of( const strong::ipc::id& i) { return i == partner( 0) ? 0 : i == partner( 1) ? 1 : -1;}
      bool no_reply( int n) { for( auto& r : requests) if( r.connection == n && r.kind == Kind::no_reply) return true; return false;}
      bool flight( int n) { for( auto& r : requests) if( r.connection == n && r.stage != Stage::done) return true; return false;}
   };
   World* w = nullptr;

   bool resource( Kind k) { return k == Kind::prepare || k == Kind::commit || k == Kind::rollback;}
   // who is not told by a message, but by the end of the connection as such
   bool by_destroyed( Kind k) { return resource( k) || k == Kind::discovery;}

   casual::platform::binary::type data( unsigned char c) { casual::platform::binary::type r; r.push_back( static_cast< std::byte>( c)); return r;}

   // the connection is over, as the other ends see it
   void over( int n)
   {
      auto& l = w->link[ n];
      l.up = false; l.disconnecting = false; l.associated = false;
   }

   bool breaks( strong::socket::id s, const Frame&)
   {
      auto n = w->of( s);
      vex_assert( w->link[ n].up, "nothing is sent on a connection that is gone");
      if( ! w->breaks || ! vex_choose( 2, "the connection breaks")) return false;
      --w->breaks;
      over( n);
      vex_cover( "a connection breaks at a send");
      return true;
   }

   bool registration( const strong::ipc::id&, const world::Complete& complete)
   {
      if( complete.type() == Type::domain_discovery_api_provider_registration_request)
      {
         dmessage::discovery::api::provider::registration::Reply reply;
         reply.correlation = complete.correlation();
         world::incoming.push_back( world::complete( reply));
      }
      return false;
   }

   // what the caller sees
   void answered( Request& r)
   {
      ++r.answers;
      if( r.trid && ! resource( r.kind) && r.sent) vex_assert( w->link[ r.connection].involved, "the transaction manager knows of the other domain before the caller gets an answer");
   }

   template< typename M>
   auto got( const world::Sent& s, Kind kind)
   {
      auto m = world::as< M>( s.complete);
      auto r = w->find( m.correlation);
      vex_assert( r && r->caller.ipc == s.destination && r->kind == kind, "the answer is for who asked");
      vex_assert( r->stage != Stage::done, "a request is answered once");
      answered( *r);
      return std::make_pair( std::move( m), r);
   }

   // codes that came in, per request
   int incoming_code = 0;
   bool incoming = false; // the event is an answer from the other domain

   int lost_messages()
   {
      int lost = 0;
      for( ;;)
      {
         auto c = world::ipc::inbound::device().cached();
         if( ! c) return lost;
         vex_assert( c.type() == Type::gateway_outbound_connection_lost, "only lost connections are told to itself");
         auto m = world::as< gmessage::outbound::connection::Lost>( c);
         int n = m.configuration.address == "a" ? 0 : 1;
         vex_assert( ! w->link[ n].up, "a connection is said to be lost when it is");
         ++w->link[ n].lost;
         ++lost;
      }
   }

   void observe()
   {
      auto sent = std::exchange( world::sent, {});
      for( auto& s : sent)
      {
         using S = message::service::call::Reply;
         switch( s.complete.type())
         {
            case Type::service_reply:
            {
               auto m = world::as< S>( s.complete);
               auto r = w->find( m.correlation);
               vex_assert( ! r || r->kind != Kind::no_reply, "nobody is told about a call without reply");
               vex_assert( r && r->caller.ipc == s.destination && r->kind == Kind::call, "an answer to a call is for who called");
               vex_assert( r->stage == Stage::flight, "a call is answered once");
               if( incoming) { vex_assert( static_cast< int>( m.code.result) == incoming_code && m.code.user == 7, "the answer is what the other domain answered"); vex_assert( m.buffer.data.size() == 1 && static_cast< unsigned char>( m.buffer.data[ 0]) == r->payload, "the answer is not changed");}
               else vex_assert( m.code.result == code::xatmi::service_error, "the call has failed");
               r->stage = Stage::done;
               answered( *r);
               break;
            }
            case Type::conversation_connect_reply:
            {
               auto [ m, r] = got< message::conversation::connect::Reply>( s, Kind::conversation);
               vex_assert( r->stage == Stage::flight, "a connect is answered once");
               if( incoming)
               {
                  vex_assert( static_cast< int>( m.code.result) == incoming_code, "the answer is what the other domain answered");
                  r->stage = m.code.result == code::xatmi::absent ? Stage::connected : Stage::done;
               }
               else { vex_assert( m.code.result == code::xatmi::service_error, "the connect has failed"); r->stage = Stage::done;}
               break;
            }
            case Type::conversation_send:
            {
               auto [ m, r] = got< message::conversation::callee::Send>( s, Kind::conversation);
               vex_assert( r->stage == Stage::connected, "there is a conversation");
               if( incoming) vex_assert( static_cast< int>( m.code.result) == incoming_code, "the conversation is passed on");
               else vex_assert( m.duplex == message::conversation::duplex::Type::terminated && m.code.result == code::xatmi::service_error, "the conversation has failed");
               if( m.duplex == message::conversation::duplex::Type::terminated) r->stage = Stage::done;
               break;
            }
            case Type::queue_group_enqueue_reply:
            {
               auto [ m, r] = got< qmessage::group::enqueue::Reply>( s, Kind::enqueue);
               vex_assert( bool( m.id) == incoming, "an id if and only if the message is enqueued");
               r->stage = Stage::done;
               break;
            }
            case Type::queue_group_dequeue_reply:
            {
               auto [ m, r] = got< qmessage::group::dequeue::Reply>( s, Kind::dequeue);
               vex_assert( m.message.has_value() == incoming, "the message is passed on");
               r->stage = Stage::done;
               break;
            }
            case Type::transaction_resource_prepare_reply:
            {
               auto [ m, r] = got< message::transaction::resource::prepare::Reply>( s, Kind::prepare);
               vex_assert( incoming && static_cast< int>( m.state) == incoming_code && m.trid == r->trid, "the answer is what the other domain answered");
               r->stage = Stage::done;
               break;
            }
            case Type::transaction_resource_commit_reply:
            {
               auto [ m, r] = got< message::transaction::resource::commit::Reply>( s, Kind::commit);
               vex_assert( incoming && static_cast< int>( m.state) == incoming_code && m.trid == r->trid, "the answer is what the other domain answered");
               r->stage = Stage::done;
               break;
            }
            case Type::transaction_resource_rollback_reply:
            {
               auto [ m, r] = got< message::transaction::resource::rollback::Reply>( s, Kind::rollback);
               vex_assert( incoming && static_cast< int>( m.state) == incoming_code && m.trid == r->trid, "the answer is what the other domain answered");
               r->stage = Stage::done;
               break;
            }
            case Type::domain_discovery_reply:
            {
               auto [ m, r] = got< dmessage::discovery::Reply>( s, Kind::discovery);
               if( ! incoming) vex_assert( m.content.services.empty(), "nothing is found");
               else vex_assert( m.content.services.size() == 1 && m.content.services[ 0].name == "s", "what the other domain has");
               r->stage = Stage::done;
               break;
            }
            case Type::transaction_external_resource_involved:
            {
               auto m = world::as< message::transaction::resource::external::Involved>( s.complete);
               vex_assert( s.destination == transaction_manager() && m.trid == w->trid, "the transaction manager is told");
               auto n = w->of( m.process.ipc);
               vex_assert( n >= 0, "of a connection");
               w->link[ n].involved = true;
               break;
            }
            case Type::event_ipc_destroyed:
            {
               auto m = world::as< message::event::ipc::Destroyed>( s.complete);
               auto n = w->of( m.process.ipc);
               vex_assert( n >= 0 && ! w->link[ n].destroyed, "the end of a connection is told once");
               w->link[ n].destroyed = true;
               over( n);
               break;
            }
            case Type::service_advertise:
            {
               auto m = world::as< message::service::Advertise>( s.complete);
               vex_assert( s.destination == service_manager(), "services are the business of the service manager");
               vex_assert( m.services.add.empty() && m.services.remove.size() == 1 && m.services.remove[ 0] == "s", "the service the other domain does not have is withdrawn");
               vex_assert( incoming && static_cast< code::xatmi>( incoming_code) == code::xatmi::no_entry, "only when the other domain does not have it");
               vex_cover( "a service is withdrawn");
               break;
            }
            case Type::service_concurrent_advertise:
            {
               auto m = world::as< message::service::concurrent::Advertise>( s.complete);
               auto n = w->of( m.process.ipc);
               vex_assert( n >= 0, "of a connection");
               if( m.directive == decltype( m.directive)::reset) w->link[ n].reset_services = true;
               else vex_assert( m.services.add.size() == 1 && m.services.add[ 0].name == "s" && m.services.add[ 0].property.hops == 4 && incoming, "what is found is advertised, one hop further away");
               break;
            }
            case Type::queue_manager_queue_advertise:
            {
               auto m = world::as< qmessage::Advertise>( s.complete);
               auto n = w->of( m.process.ipc);
               vex_assert( n >= 0 && m.directive == decltype( m.directive)::reset, "of a connection");
               w->link[ n].reset_queues = true;
               break;
            }
            default: break;
         }
      }

      lost_messages();

      for( int n = 0; n < 2; ++n)
      {
         auto& l = w->link[ n];
         if( l.up) { vex_assert( ! l.destroyed, "the end of a connection is told when it has ended"); continue;}
         vex_assert( l.destroyed, "the end of a connection is told to all");
         vex_assert( l.reset_services && l.reset_queues, "services and queues of a connection end with it");
         for( auto& r : w->requests)
         {
            if( r.connection != n) continue;
            vex_assert( by_destroyed( r.kind) || r.stage == Stage::done, "who waits for a connection that is lost is told");
            r.stage = Stage::done;
         }
      }

      auto out = std::exchange( gww::out, {});
      for( auto& o : out)
      {
         auto n = w->of( o.socket);
         auto r = w->find( o.frame.correlation());
         switch( o.frame.type())
         {
            case Type::gateway_domain_disconnect_reply: vex_assert( w->link[ n].disconnecting || ! w->link[ n].up, "asked to disconnect"); break;
            case Type::conversation_disconnect: vex_assert( r && r->connection == n, "the end of a conversation goes where the conversation is"); break;
            case Type::conversation_send:
            {
               auto m = as< message::conversation::callee::Send>( o.frame);
               vex_assert( r && r->connection == n && m.code.user == 9, "a conversation goes on where it is");
               break;
            }
            default:
            {
               vex_assert( r && r->connection == n && ! r->sent, "a request goes to the domain it is for, once");
               r->sent = true;
               bool old = w->link[ n].version < Version::v1_3;
               switch( r->kind)
               {
                  case Kind::call: case Kind::no_reply:
                  {
                     auto check = [&]( auto m)
                     {
                        vex_assert( m.service.name == "s" && m.trid == r->trid && m.buffer.data.size() == 1 && static_cast< unsigned char>( m.buffer.data[ 0]) == r->payload, "the call is not changed");
                        using Flag = message::service::call::request::Flag;
                        vex_assert( flag::contains( m.flags, Flag::no_reply) == ( r->kind == Kind::no_reply), "flags are not changed");
                     };
                     vex_assert( old == ( o.frame.type() == Type::service_call_v2), "in the protocol of the connection");
                     if( old) { auto m = as< message::service::call::v1_2::callee::Request>( o.frame); vex_assert( m.service.timeout.duration == std::chrono::seconds{ 3}, "the deadline is passed on"); check( std::move( m));}
                     else { auto m = as< message::service::call::callee::Request>( o.frame); vex_assert( m.deadline.remaining == std::chrono::seconds{ 3}, "the deadline is passed on"); check( std::move( m));}
                     break;
                  }
                  case Kind::conversation:
                  {
                     auto check = [&]( auto m)
                     {
                        vex_assert( m.service.name == "s" && m.trid == r->trid && m.duplex == message::conversation::duplex::Type::receive, "the connect is not changed");
                     };
                     vex_assert( old == ( o.frame.type() == Type::conversation_connect_request_v2), "in the protocol of the connection");
                     if( old) check( as< message::conversation::connect::v1_2::callee::Request>( o.frame));
                     else check( as< message::conversation::connect::callee::Request>( o.frame));
                     break;
                  }
                  case Kind::enqueue: { auto m = as< qmessage::group::enqueue::Request>( o.frame); vex_assert( m.name == "q" && m.trid == r->trid && static_cast< unsigned char>( m.message.payload.data.at( 0)) == r->payload, "the message is not changed"); break;}
                  case Kind::dequeue: { auto m = as< qmessage::group::dequeue::Request>( o.frame); vex_assert( m.name == "q" && m.trid == r->trid, "the request is not changed"); break;}
                  case Kind::prepare: { auto m = as< message::transaction::resource::prepare::Request>( o.frame); vex_assert( m.trid == r->trid, "the transaction is not changed"); break;}
                  case Kind::commit: { auto m = as< message::transaction::resource::commit::Request>( o.frame); vex_assert( m.trid == r->trid, "the transaction is not changed"); break;}
                  case Kind::rollback: { auto m = as< message::transaction::resource::rollback::Request>( o.frame); vex_assert( m.trid == r->trid, "the transaction is not changed"); break;}
                  case Kind::discovery: { auto m = as< dmessage::discovery::Request>( o.frame); vex_assert( m.content.services.size() == 1, "the request is not changed"); break;}
               }
               if( r->trid && ! resource( r->kind) && w->link[ n].up) w->link[ n].associated = true;
               if( r->kind == Kind::no_reply) r->stage = Stage::done;
            }
         }
      }
      incoming = false;
   }

   strong::correlation::id correlation() { return strong::correlation::id::generate();}

   void request( Kind kind, int n, bool transactional)
   {
      auto& l = w->link[ n];
      Request r;
      r.kind = kind;
      r.connection = n;
      r.caller = world::handle( 300 + w->requests.size());
      r.correlation = correlation();
      if( transactional) r.trid = w->trid;
      r.payload = vex_range( 0, 255, "payload");
      w->requests.push_back( r);

      auto deliver = [&]( auto& m)
      {
         m.correlation = r.correlation;
         w->internal( world::complete( m), internal( n));
      };
      auto with_trid = [&]( auto& m) { m.trid = r.trid; deliver( m);};

      switch( kind)
      {
         case Kind::call: case Kind::no_reply:
         {
            message::service::call::callee::Request m{ r.caller};
            m.service.name = "s";
            m.deadline.remaining = std::chrono::seconds{ 3};
            if( kind == Kind::no_reply) m.flags = message::service::call::request::Flag::no_reply;
            m.buffer = buffer::Payload{ "X_OCTET/", data( r.payload)};
            with_trid( m);
            break;
         }
         case Kind::conversation:
         {
            message::conversation::connect::callee::Request m{ r.caller};
            m.service.name = "s";
            m.duplex = message::conversation::duplex::Type::receive;
            m.buffer = buffer::Payload{ "X_OCTET/", data( r.payload)};
            with_trid( m);
            break;
         }
         case Kind::enqueue:
         {
            qmessage::group::enqueue::Request m{ r.caller};
            m.name = "q";
            m.message.payload = buffer::Payload{ "X_OCTET/", data( r.payload)};
            with_trid( m);
            break;
         }
         case Kind::dequeue:
         {
            qmessage::group::dequeue::Request m{ r.caller};
            m.name = "q";
            with_trid( m);
            break;
         }
         case Kind::prepare: { message::transaction::resource::prepare::Request m{ r.caller}; with_trid( m); break;}
         case Kind::commit: { message::transaction::resource::commit::Request m{ r.caller}; with_trid( m); break;}
         case Kind::rollback: { message::transaction::resource::rollback::Request m{ r.caller}; with_trid( m); break;}
         case Kind::discovery:
         {
            dmessage::discovery::Request m{ r.caller};
            m.content.services.push_back( "s");
            deliver( m);
            break;
         }
      }
      bool disconnecting = l.disconnecting;
      observe();
      auto& result = w->requests.back();
      if( l.up)
      {
         if( kind == Kind::discovery && disconnecting) { vex_assert( ! result.sent && result.stage == Stage::done, "a domain that is to disconnect is not asked for more"); vex_cover( "nothing is found in a domain that is to disconnect");}
         else vex_assert( result.sent, "a request is sent");
      }
      else if( kind == Kind::no_reply) result.stage = Stage::done;
   }

   void external( int n, Frame frame) { gww::received( frame); w->external( frame, socket( n));}

   code::xatmi any_code()
   {
      auto c = vex_range( 0, 24, "code");
      return static_cast< code::xatmi>( c);
   }

   // the other domain answers
   void answer( Request& r)
   {
      auto n = r.connection;
      bool old = w->link[ n].version < Version::v1_3;
      auto before = r.answers;
      incoming = true;
      auto send = [&]( auto& m) { m.correlation = r.correlation; external( n, frame( m));};
      auto transaction = [&]( auto m)
      {
         m.trid = r.trid;
         auto c = vex_range( 100, 107, "xa code");
         m.state = static_cast< code::xa>( c);
         incoming_code = c;
         send( m);
      };
      switch( r.kind)
      {
         case Kind::call:
         {
            message::service::call::Reply m;
            m.code.result = any_code();
            m.code.user = 7;
            m.buffer = buffer::Payload{ "X_OCTET/", data( r.payload)};
            incoming_code = static_cast< int>( m.code.result);
            m.correlation = r.correlation;
            if( old) { auto o = gmessage::protocol::transform::to< message::service::call::v1_2::Reply>( std::move( m)); send( o);}
            else send( m);
            break;
         }
         case Kind::conversation:
         {
            if( r.stage == Stage::flight)
            {
               message::conversation::connect::Reply m;
               if( vex_choose( 2, "refused")) { m.code.result = any_code(); vex_assume( m.code.result != code::xatmi::ok);}
               incoming_code = static_cast< int>( m.code.result);
               send( m);
            }
            else
            {
               message::conversation::callee::Send m;
               if( vex_choose( 2, "ends")) { m.duplex = message::conversation::duplex::Type::terminated; m.code.result = any_code();}
               incoming_code = static_cast< int>( m.code.result);
               send( m);
            }
            break;
         }
         case Kind::enqueue:
         {
            qmessage::group::enqueue::Reply m;
            m.id = uuid::make();
            m.correlation = r.correlation;
            if( old) { auto o = gmessage::protocol::transform::to< qmessage::group::enqueue::v1_2::Reply>( std::move( m)); send( o);}
            else send( m);
            break;
         }
         case Kind::dequeue:
         {
            qmessage::group::dequeue::Reply m;
            m.message.emplace();
            m.correlation = r.correlation;
            if( old) { auto o = gmessage::protocol::transform::to< qmessage::group::dequeue::v1_2::Reply>( std::move( m)); send( o);}
            else send( m);
            break;
         }
         case Kind::prepare: transaction( message::transaction::resource::prepare::Reply{}); break;
         case Kind::commit: transaction( message::transaction::resource::commit::Reply{}); break;
         case Kind::rollback: transaction( message::transaction::resource::rollback::Reply{}); break;
         case Kind::discovery:
         {
            dmessage::discovery::Reply m;
            m.content.services.resize( 1);
            m.content.services[ 0].name = "s";
            m.content.services[ 0].property.hops = 3;
            m.correlation = r.correlation;
            if( old) { auto o = gmessage::protocol::transform::to< dmessage::discovery::v1_3::Reply>( std::move( m)); send( o);}
            else send( m);
            break;
         }
         case Kind::no_reply: break;
      }
      observe();
      vex_assert( r.answers == before + 1, "the answer is passed on");
   }

   void lose( int n)
   {
      over( n);
      auto lost = outbound::handle::connection::lost( w->state, socket( n));
      vex_assert( lost.configuration.address == ( n == 0 ? "a" : "b"), "what is lost is what was connected");
      observe();
      vex_cover( "a connection is lost");
   }

   void disassociate()
   {
      message::event::transaction::Disassociate m{ world::handle( 900)};
      m.gtrid = casual::common::transaction::global::ID{ casual::common::transaction::id::range::global( w->trid)};
      world::deliver( w->management, m);
      for( auto& l : w->link) l.associated = false;
      observe();
   }

   void idle()
   {
      bool before[ 2], busy[ 2];
      for( int n = 0; n < 2; ++n)
      {
         before[ n] = w->link[ n].disconnecting;
         busy[ n] = w->flight( n) || w->link[ n].associated;
      }
      outbound::handle::idle( w->state);
      for( auto& s : world::sent)
         if( s.complete.type() == Type::event_ipc_destroyed)
         {
            auto n = w->of( world::as< message::event::ipc::Destroyed>( s.complete).process.ipc);
            vex_assert( n >= 0 && before[ n], "a connection ends when it is to");
            vex_assert( ! busy[ n], "a connection with something in flight is kept");
            over( n);
         }
      for( int n = 0; n < 2; ++n)
         if( before[ n] && ! busy[ n] && ! w->no_reply( n)) { vex_assert( ! w->link[ n].up, "a connection that is to end, and has nothing in flight, ends"); vex_cover( "disconnected when nothing is in flight");}
      observe();
   }

   void disconnect( int n)
   {
      gmessage::domain::disconnect::Request m;
      m.correlation = correlation();
      w->link[ n].disconnecting = true;
      external( n, frame( m));
      observe();
      if( w->link[ n].up) vex_assert( w->link[ n].reset_services && w->link[ n].reset_queues, "nothing more is found in a domain that is to disconnect");
   }

   void world_of( int events, bool deep)
   {
      world::ipc::inbound::device();
      w = new World;
      world::fails = &registration;
      gww::breaks = nullptr;
      w->trid = casual::common::transaction::id::create( world::handle( 800));

      w->link[ 0].version = vex_choose( 2, "old protocol") ? Version::v1_2 : Version::current;
      w->link[ 1].version = Version::current;
      {
         casual::configuration::model::gateway::outbound::Connection c;
         c.address = "a";
         connect( w->state, w->management, 0, w->link[ 0].version, c);
         c.address = "b";
         connect( w->state, w->management, 1, w->link[ 1].version, c);
      }
      lost_messages();
      observe();
      gww::breaks = &breaks;

      bool ended = false;
      int unknown = 1, goodbyes = 1;
      for( int e = 0; e < events; ++e)
      {
         switch( vex_choose( 7, "event"))
         {
            case 0: // a request
            {
               // the first request is on the first connection, if they are alike
               auto n = w->requests.empty() && w->link[ 0].version == Version::current ? 0 : vex_choose( 2, "connection");
               if( ! w->link[ n].up) return;
               auto kind = ! deep && e == 2 ? ( w->link[ n].disconnecting ? Kind::discovery : vex_choose( 2, "kind") ? Kind::prepare : Kind::call) : static_cast< Kind>( vex_choose( deep ? 9 : 7, "kind"));
               bool transactional = resource( kind) || kind == Kind::dequeue || ( ( kind == Kind::call || kind == Kind::enqueue || ( deep && kind == Kind::conversation)) && vex_choose( 2, "transaction"));
               if( transactional && ended) return;
               request( kind, n, transactional);
               break;
            }
            case 1: // an answer
            {
               std::vector< Request*> candidates;
               for( auto& r : w->requests) if( r.stage != Stage::done && w->link[ r.connection].up) candidates.push_back( &r);
               if( candidates.empty()) return;
               answer( *candidates[ vex_choose( candidates.size(), "which")]);
               break;
            }
            case 2: // an answer nobody waits for
            {
               if( ! unknown-- || ! w->link[ 1].up) return;
               message::service::call::Reply m;
               m.correlation = correlation();
               for( auto& r : w->requests) if( r.stage == Stage::done && r.connection == 1 && r.kind == Kind::call) m.correlation = r.correlation;
               external( 1, frame( m));
               observe();
               break;
            }
            case 3: // the caller of a conversation
            {
               Request* found = nullptr;
               for( auto& r : w->requests) if( r.stage == Stage::connected && w->link[ r.connection].up) found = &r;
               if( ! found) return;
               if( vex_choose( 2, "ends"))
               {
                  message::conversation::Disconnect m;
                  m.correlation = found->correlation;
                  found->stage = Stage::done;
                  w->internal( world::complete( m), internal( found->connection));
                  vex_cover( "the caller ends a conversation");
               }
               else
               {
                  message::conversation::callee::Send m;
                  m.correlation = found->correlation;
                  m.code.user = 9;
                  w->internal( world::complete( m), internal( found->connection));
                  vex_cover( "a conversation");
               }
               observe();
               break;
            }
            case 4: // a connection is lost
            {
               if( ! w->breaks--) return;
               auto n = vex_choose( 2, "connection");
               if( ! w->link[ n].up) return;
               lose( n);
               break;
            }
            case 5: // wants to disconnect, and soon after there is nothing to do
            {
               if( ! goodbyes--) return;
               auto n = vex_choose( 2, "connection");
               if( ! w->link[ n].up) return;
               disconnect( n);
               idle();
               break;
            }
            case 6: // the transaction is over, nothing to do
            {
               if( ended || w->requests.empty()) return;
               for( auto& r : w->requests) if( r.trid && r.stage != Stage::done) return;
               ended = true;
               disassociate();
               idle();
               break;
            }
         }
      }

      w->breaks = 0;
      if( vex_choose( 2, "all lost"))
      {
         for( int n = 0; n < 2; ++n) if( w->link[ n].up) lose( n);
      }
      else
      {
         outbound::handle::shutdown( w->state);
         for( int n = 0; n < 2; ++n) if( w->link[ n].up) w->link[ n].disconnecting = true;
         observe();
         idle();
         for( auto& r : w->requests)
            for( int i = 0; i < 3 && r.stage != Stage::done && w->link[ r.connection].up; ++i) 
            {
               if( r.kind == Kind::conversation && r.stage == Stage::connected)
               {
                  message::conversation::Disconnect m;
                  m.correlation = r.correlation;
                  r.stage = Stage::done;
                  w->internal( world::complete( m), internal( r.connection));
                  observe();
               }
               else answer( r);
            }
         idle();
         disassociate();
         idle();
         bool no_reply = false;
         for( auto& r : w->requests) no_reply |= r.kind == Kind::no_reply && r.sent;
         if( no_reply) vex_assert( w->state.done(), "done when all that is in flight is calls without reply");
         for( auto& l : w->link) vex_assert( ! l.up, "shut down when nothing is in flight");
         vex_assert( w->state.done(), "done when nothing is in flight");
      }
      for( auto& r : w->requests) vex_assert( r.stage == Stage::done, "every request is settled");
      vex_assert( w->state.tasks.empty() && w->state.reply_destination.empty() && w->state.pending.transactions.empty(), "nothing is left when all is settled");
      vex_cover( "settled");
   }
}

VEX_ENTRY( histories) { world_of( 3, false);}
VEX_ENTRY_THOROUGH( deeper) { world_of( 4, true);}
