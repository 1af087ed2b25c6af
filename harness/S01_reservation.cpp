// who gets which server instance: every history of lookups, replies, deaths, discards and shutdowns
#include "smworld.h"

//@ bounds two server instances (one with services a and b, one with a; a third, with a, may come later), up to 3 lookups: regular of a, b or c (nowhere), no reply of a, wait for b or c; every history of 5 (quick) / 6 (thorough) events: lookup, an instance is done, discovery answers with nothing, and up to 2 of: an instance dies, the caller discards its lookup (with or without reply), a waiting caller disappears, shutdown of an instance is prepared, the third instance advertises, an instance stops advertising a; afterwards every free instance is looked up again
//@ outside deadlines (S02), routes and services of other domains (S03), metrics, admin services
//@ stubs ipc transport (messages recorded, complete or failed), admin services, timer

using namespace casual;
using namespace smw;

namespace
{
   struct Server
   {
      process::Handle process;
      bool alive = false, stopping = false, stop_answered = false;
      bool a = false, b = false;
      int busy = -1;
      bool has( char s) const { return ( s == 'a' && a) || ( s == 'b' && b);}
      bool offers( char s) const { return alive && ! stopping && has( s);}
   };

   enum class Stage { pending, holds, forwarded, absent, ended, discarded};

   struct Call
   {
      char service;
      Semantic semantic;
      process::Handle caller;
      strong::correlation::id correlation;
      Stage stage = Stage::pending;
      bool gone = false, discovering = false, answered = false, failed = false;
      int server = -1;
   };

   struct World
   {
      Server servers[ 3];
      std::vector< Call> calls;
      process::Handle forward = world::handle( 400), domain = world::handle( 500);
      std::optional< bool> discarded;

      Call* find( const strong::correlation::id& id) { for( auto& c : calls) if( c.correlation == id) return &c; return nullptr;}
      bool available( char s) const { for( auto& i : servers) if( i.offers( s)) return true; return false;}
   };
   World* w = nullptr;

   // an answer that is to reach a caller
   void answered( Call& call, const lookup::Reply& reply, bool arrives)
   {
      vex_assert( call.stage == Stage::pending, "a lookup is answered once");
      using S = lookup::reply::State;
      vex_assert( reply.service.name == std::string( 1, call.service), "the answer is about the requested service");
      if( reply.state == S::idle)
      {
         if( reply.process == w->forward)
         {
            vex_assert( call.semantic == Semantic::no_reply, "only calls without reply go to the forward");
            call.stage = Stage::forwarded;
            vex_cover( "forwarded");
            return;
         }
         int known = 0;
         for( auto& server : w->servers) known += server.process == reply.process;
         vex_assert( known == 1, "a lookup is given an instance that is known");
         for( int n = 0; n < 3; ++n)
         {
            auto& server = w->servers[ n];
            if( server.process != reply.process) continue;
            vex_assert( server.alive, "a lookup is given an instance that is alive");
            vex_assert( server.has( call.service), "a lookup is given an instance that has the service");
            vex_assert( server.busy < 0, "an instance has one call at a time");
            if( arrives)
            {
               server.busy = &call - w->calls.data();
               call.server = n;
               call.stage = Stage::holds;
            }
            else { call.stage = Stage::ended; vex_cover( "caller gone when it is answered");}
            return;
         }
      }
      else
      {
         vex_assert( reply.state == S::absent, "no timeout without deadlines");
         vex_assert( ! w->available( call.service), "absent only when no instance has the service");
         vex_assert( call.semantic != Semantic::wait, "who waits is not refused");
         call.stage = Stage::absent;
         vex_cover( "absent");
      }
   }

   bool fails( const strong::ipc::id& destination, const world::Complete& complete)
   {
      for( auto& call : w->calls)
         if( call.gone && call.caller.ipc == destination)
         {
            if( complete.type() == Type::service_name_lookup_reply) answered( call, world::as< lookup::Reply>( complete), false);
            return true;
         }
      return false;
   }

   void observe( World& w)
   {
      auto sent = std::exchange( world::sent, {});
      for( auto& s : sent)
      {
         switch( s.complete.type())
         {
            case Type::service_name_lookup_reply:
            {
               auto m = world::as< lookup::Reply>( s.complete);
               auto call = w.find( m.correlation);
               vex_assert( call && call->caller.ipc == s.destination, "answers go to who asked");
               answered( *call, m, true);
               break;
            }
            case Type::service_reply:
            {
               auto m = world::as< message::service::call::Reply>( s.complete);
               auto call = w.find( m.correlation);
               vex_assert( call && call->caller.ipc == s.destination, "an error reply goes to the caller");
               vex_assert( call->semantic != Semantic::no_reply, "no reply to who does not wait for one");
               vex_assert( call->stage == Stage::holds && ! w.servers[ call->server].alive && ! call->failed, "an error reply when the instance of a call dies, once");
               vex_assert( m.code.result == code::xatmi::service_error, "the reply is an error");
               call->failed = true;
               break;
            }
            case Type::domain_discovery_api_request:
            {
               if( auto call = w.find( s.complete.correlation())) call->discovering = true;
               break;
            }
            case Type::service_name_lookup_discard_reply:
            {
               auto m = world::as< lookup::discard::Reply>( s.complete);
               vex_assert( ! w.discarded, "one answer to a discard");
               w.discarded = m.state == lookup::discard::Reply::State::discarded;
               break;
            }
            case Type::domain_process_prepare_shutdown_reply:
            {
               auto m = world::as< message::domain::process::prepare::shutdown::Reply>( s.complete);
               vex_assert( s.destination == w.domain.ipc, "shutdown is answered to who asked");
               for( auto& p : m.processes)
               {
                  bool known = false;
                  for( auto& server : w.servers)
                     if( server.process == p)
                     {
                        known = true;
                        vex_assert( server.stopping && ! server.stop_answered, "an instance is released for shutdown once");
                        vex_assert( server.busy < 0, "an instance is released for shutdown when its call is done");
                        server.stop_answered = true;
                     }
                  vex_assert( known, "only the requested instances are released");
               }
               break;
            }
            default: break;
         }
      }
      // no lookup waits while an instance is free
      for( auto& call : w.calls)
         if( call.stage == Stage::pending)
            for( auto& server : w.servers)
               vex_assert( ! ( server.offers( call.service) && server.busy < 0), "no lookup waits while an instance is free");
      for( auto& server : w.servers)
         if( server.stopping && server.alive)
            vex_assert( server.busy >= 0 || server.stop_answered, "shutdown of an instance is released when its call is done");
   }
}

VEX_ENTRY( reservation)
{
   auto& state = *smw::state();
   w = new World;
   world::fails = &fails;
   auto handler = casual::service::manager::handle::create( state);
   static_cast< process::Handle&>( state.forward) = w->forward;
   for( int n = 0; n < 3; ++n) w->servers[ n].process = world::handle( 200 + n);

   auto come = [&]( int n, bool b)
   {
      auto& server = w->servers[ n];
      server.alive = server.a = true;
      server.b = b;
      advertises( handler, server.process, b ? std::vector< std::string>{ "a", "b"} : std::vector< std::string>{ "a"});
   };
   come( 0, true);
   come( 1, false);
   observe( *w);

   const int steps = VEX_TIER ? 6 : 5;
   int upsets = 2;
   // what can be less interesting happens once
   bool once[ 8] = {};

   auto ask = [&]( char service, Semantic semantic)
   {
      Call call;
      call.service = service;
      call.semantic = semantic;
      call.caller = world::handle( 300 + w->calls.size());
      call.correlation = strong::correlation::id::generate();
      w->calls.push_back( call);
      lookup::Request m{ call.caller};
      m.correlation = call.correlation;
      m.requested = std::string( 1, service);
      m.context.semantic = semantic;
      world::deliver( handler, m);
   };

   w->calls.reserve( 16);
   for( int step = 0; step < steps; ++step)
   {
      struct Event { int kind, arg, extra;};
      std::vector< Event> events;
      const bool calm = upsets == 0;
      enum { look, done, dies, discard, vanish, shutdown, arrive, unadvertise, nothing};
      if( w->calls.size() < 3)
      {
         for( int semantic = 0; semantic < 3; ++semantic) events.push_back( { look, 0, semantic});
      }
      for( int n = 0; n < 3; ++n)
      {
         auto& server = w->servers[ n];
         if( server.busy >= 0) events.push_back( { done, n, 0});
         if( server.alive && ! calm && ! once[ dies] && ( n < 2)) events.push_back( { dies, n, 0});
         if( server.alive && ! calm && ! server.stopping && ! once[ shutdown] && n < 2) events.push_back( { shutdown, n, 0});
      }
      if( ! calm && ! once[ arrive]) events.push_back( { arrive, 2, 0});
      if( ! calm && ! once[ unadvertise] && w->servers[ 0].alive && ! w->servers[ 0].stopping) events.push_back( { unadvertise, 0, 0});
      for( int n = 0; n < ( int)w->calls.size(); ++n)
      {
         auto& call = w->calls[ n];
         if( ! calm && ! once[ discard] && ( call.stage == Stage::pending || call.stage == Stage::holds) && ! call.gone) events.push_back( { discard, n, n & 1});
         if( ! calm && ! once[ vanish] && call.stage == Stage::pending && ! call.gone) events.push_back( { vanish, n, 0});
         if( call.discovering) events.push_back( { nothing, n, 0});
      }
      if( events.empty()) break;
      auto event = events[ vex_choose( events.size(), "event")];
      if( event.kind != look && event.kind != done && event.kind != nothing) { once[ event.kind] = true; --upsets;}
      switch( event.kind)
      {
         case look:
         {
            constexpr Semantic semantics[] = { Semantic::regular, Semantic::no_reply, Semantic::wait};
            // a and b are services, c is not
            char service = event.extra == 0 ? vex_range( 'a', 'c', "service") : vex_range( 'a' + event.extra - 1, 'a' + 2 * ( event.extra - 1), "service");
            ask( service, semantics[ event.extra]);
            break;
         }
         case done:
         {
            auto& server = w->servers[ event.arg];
            auto& call = w->calls[ server.busy];
            message::service::call::ACK m{};
            m.correlation = call.correlation;
            m.metric.process = server.process;
            m.metric.service = std::string( 1, call.service);
            call.stage = Stage::ended;
            server.busy = -1;
            world::deliver( handler, m);
            break;
         }
         case dies:
         {
            auto& server = w->servers[ event.arg];
            server.alive = false;
            auto busy = std::exchange( server.busy, -1);
            exits( handler, server.process);
            world::drain( handler);
            if( busy >= 0)
            {
               // observed below, but it has to be there by now
               observe( *w);
               auto& call = w->calls[ busy];
               vex_assert( call.failed || call.semantic == Semantic::no_reply || call.gone, "the caller of an instance that dies is told");
               call.stage = Stage::ended;
               vex_cover( "dies with a call");
            }
            break;
         }
         case discard:
         {
            auto& call = w->calls[ event.arg];
            lookup::discard::Request m{ call.caller};
            m.correlation = call.correlation;
            m.requested = std::string( 1, call.service);
            m.reply = event.extra == 0;
            const bool holds = call.stage == Stage::holds;
            if( holds) w->servers[ call.server].busy = -1;
            call.stage = Stage::discarded;
            world::deliver( handler, m);
            world::drain( handler);
            observe( *w);
            vex_assert( ! m.reply || ( w->discarded && *w->discarded == ! holds), "a discard is answered with what was discarded");
            break;
         }
         case vanish: w->calls[ event.arg].gone = true; break;
         case shutdown:
         {
            auto& server = w->servers[ event.arg];
            server.stopping = true;
            message::domain::process::prepare::shutdown::Request m{ w->domain};
            m.processes.push_back( server.process);
            world::deliver( handler, m);
            vex_cover( "shutdown");
            break;
         }
         case arrive: come( 2, false); break;
         case unadvertise:
            w->servers[ 0].a = false;
            advertises( handler, w->servers[ 0].process, {}, { "a"});
            break;
         case nothing:
         {
            auto& call = w->calls[ event.arg];
            call.discovering = false;
            casual::domain::message::discovery::api::Reply m{};
            m.correlation = call.correlation;
            world::deliver( handler, m);
            world::drain( handler);
            observe( *w);
            vex_assert( call.stage != Stage::pending || call.semantic == Semantic::wait || w->available( call.service), "a service that is nowhere is answered");
            break;
         }
      }
      world::drain( handler);
      observe( *w);
   }
   // who still waits, has something to wait for
   for( auto& call : w->calls)
      if( call.stage == Stage::pending) vex_assert( w->available( call.service) || call.discovering || call.semantic == Semantic::wait, "who waits has something to wait for");
   // every free instance is there for the next lookup
   for( char service : { 'b', 'a'})
   {
      int free = 0;
      for( auto& server : w->servers) free += server.offers( service) && server.busy < 0;
      for( int n = 0; n < free; ++n)
      {
         ask( service, Semantic::regular);
         world::drain( handler);
         observe( *w);
         vex_assert( w->calls.back().stage == Stage::holds, "every free instance can be looked up");
      }
   }
   vex_cover( "done");
}
