// time: every call with a deadline is answered, or told that it timed out, once and in time
#include "smworld.h"
#include "common/message/transaction.h"

//@ bounds one server instance (thorough: one or two) with services a and b; timeout of a any of 0..100 time units (the code only compares and adds times), of b none (thorough: any); contract linger or kill (thorough: interrupt, abort); up to 3 lookups of a or b (regular, or one that waits), with or without a deadline of the caller (any of 1..100), in transaction or not; every history of 5 (thorough: 4) events of: lookup, any time (1..200) passes, an instance is done, and up to one of: an instance dies, the caller discards, shutdown is prepared
//@ outside calls without reply, services of other domains, time that passes while another domain is asked for a service
//@ stubs ipc transport (messages recorded), admin services, timer and clock

using namespace casual;
using namespace smw;
using Contract = common::service::execution::timeout::contract::Type;

namespace
{
   // only the order and sums of times matter, so few of them are enough
   constexpr int64_t longest = 100;

   struct Server
   {
      process::Handle process;
      bool alive = false, stopping = false, stop_answered = false, doomed = false;
      int busy = -1;
      bool timed_out = false;
   };
   enum class Stage { pending, holds, timed_out, ended, discarded};
   struct Call
   {
      char service;
      bool waits = false, transaction = false, expired = false, failed = false;
      process::Handle caller;
      strong::correlation::id correlation;
      common::transaction::global::ID gtrid;
      Stage stage = Stage::pending;
      int server = -1;
      std::optional< int64_t> wanted, deadline;
   };
   struct World
   {
      std::vector< Server> servers;
      std::vector< Call> calls;
      std::optional< int64_t> timeout[ 2];
      Contract contract = Contract::linger;
      process::Handle domain = world::handle( 500);
      int assassinations = 0, rollbacks = 0, timeouts = 0;
      Call* find( const strong::correlation::id& id) { for( auto& c : calls) if( c.correlation == id) return &c; return nullptr;}
   };
   World* w = nullptr;

   std::optional< int64_t> deadline( const Call& call)
   {
      auto duration = w->timeout[ call.service - 'a'];
      if( duration && *duration > 0)
      {
         auto at = vexp::now + *duration;
         if( ! call.wanted || *call.wanted > at) return at;
      }
      return call.wanted;
   }

   void expired( Call& call)
   {
      vex_assert( ! call.expired && ! call.failed, "a call times out once");
      vex_assert( call.deadline && *call.deadline < vexp::now, "a call does not time out before its deadline");
      call.expired = true;
      call.stage = Stage::timed_out;
   }

   void observe()
   {
      auto sent = std::exchange( world::sent, {});
      for( auto& s : sent)
         switch( s.complete.type())
         {
            case Type::service_name_lookup_reply:
            {
               auto m = world::as< lookup::Reply>( s.complete);
               auto call = w->find( m.correlation);
               vex_assert( call && call->caller.ipc == s.destination && call->stage == Stage::pending, "a lookup is answered once, to who asked");
               using S = lookup::reply::State;
               if( m.state == S::timeout) { expired( *call); vex_cover( "waiting lookup timed out"); break;}
               vex_assert( m.state == S::idle, "no service disappears");
               for( int n = 0; n < ( int)w->servers.size(); ++n)
               {
                  auto& server = w->servers[ n];
                  if( server.process != m.process) continue;
                  vex_assert( server.alive && server.busy < 0, "an instance has one call at a time, even if that has timed out");
                  vex_assert( ! server.doomed, "no call is given to an instance that is to be killed");
                  server.busy = call - w->calls.data();
                  call->server = n;
                  call->stage = Stage::holds;
                  if( ! call->deadline) call->deadline = deadline( *call);
                  vex_assert( m.deadline.remaining.has_value() == call->deadline.has_value(), "the caller is told the deadline, if there is one");
                  if( call->deadline) vex_assert( std::chrono::nanoseconds{ *m.deadline.remaining}.count() == *call->deadline - vexp::now, "the caller is told what remains until the deadline");
               }
               vex_assert( call->stage == Stage::holds, "a known instance");
               break;
            }
            case Type::service_reply:
            {
               auto m = world::as< message::service::call::Reply>( s.complete);
               auto call = w->find( m.correlation);
               vex_assert( call && call->caller.ipc == s.destination, "an error reply goes to the caller");
               vex_assert( call->stage == Stage::holds, "an error reply to a call that waits for one");
               auto& server = w->servers[ call->server];
               if( m.code.result == code::xatmi::timeout)
               {
                  expired( *call);
                  server.timed_out = true;
                  ++w->timeouts;
                  if( w->contract == Contract::kill || w->contract == Contract::abort) server.doomed = true;
                  vex_cover( "call timed out");
               }
               else
               {
                  vex_assert( ! server.alive && m.code.result == code::xatmi::service_error, "an error reply when the instance died");
                  call->failed = true;
                  call->stage = Stage::ended;
               }
               break;
            }
            case Type::event_process_assassination_contract:
            {
               auto m = world::as< message::event::process::Assassination>( s.complete);
               ++w->assassinations;
               bool found = false;
               for( auto& server : w->servers) if( server.process.pid == m.target) found = server.timed_out && server.busy >= 0;
               vex_assert( found && m.contract == w->contract, "the instance that timed out is reported, with the contract");
               break;
            }
            case Type::transaction_rollback_request:
            {
               auto m = world::as< message::transaction::rollback::Request>( s.complete);
               ++w->rollbacks;
               break;
            }
            case Type::domain_process_prepare_shutdown_reply:
            {
               auto m = world::as< message::domain::process::prepare::shutdown::Reply>( s.complete);
               for( auto& p : m.processes)
                  for( auto& server : w->servers)
                     if( server.process == p)
                     {
                        vex_assert( server.stopping && ! server.stop_answered && server.busy < 0, "an instance is released for shutdown when its call is done, once");
                        server.stop_answered = true;
                     }
               break;
            }
            default: break;
         }
      vex_assert( w->assassinations == w->timeouts, "every instance that times out is reported");
      for( auto& server : w->servers)
         if( server.stopping && server.alive)
            vex_assert( server.busy >= 0 || server.stop_answered, "shutdown of an instance is released when its call is done");
      for( auto& call : w->calls)
         if( call.stage == Stage::pending)
            for( auto& server : w->servers)
               vex_assert( ! ( server.alive && ! server.stopping && ! server.doomed && server.busy < 0), "no lookup waits while an instance is free");
   }
}

VEX_ENTRY( deadlines)
{
   auto& state = *smw::state();
   w = new World;
   vexp::now = 1L << 40;
   auto handler = casual::service::manager::handle::create( state);
   const int instances = VEX_TIER ? 1 + vex_choose( 2, "instances") : 1;
   constexpr Contract contracts[] = { Contract::linger, Contract::kill, Contract::interrupt, Contract::abort};
   const auto contract = vex_choose( VEX_TIER ? 4 : 2, "contract");
   w->contract = contracts[ contract];
   w->servers.resize( instances);
   w->calls.reserve( 8);
   for( int n = 0; n < instances; ++n)
   {
      auto& server = w->servers[ n];
      server.process = world::handle( 200 + n);
      server.alive = true;
      for( int service = 0; service < 2; ++service)
      {
         if( n == 0) w->timeout[ service] = service == 0 || VEX_TIER ? vex_range( 0, longest, "timeout") : 0;
         state.timeout.duration = std::chrono::nanoseconds{ *w->timeout[ service]};
         state.timeout.contract = w->contract;
         advertises( handler, server.process, { std::string( 1, 'a' + service)});
      }
   }
   observe();

   bool upset = false;
   const int steps = VEX_TIER ? 4 : 5;
   for( int step = 0; step < steps; ++step)
   {
      enum { look, pass, done, dies, discard, shutdown};
      struct Event { int kind, arg;};
      std::vector< Event> events;
      if( w->calls.size() < 3)
      {
         events.push_back( { look, 0});
         if( w->calls.size() == 1) events.push_back( { look, 1});
      }
      if( ! w->calls.empty()) events.push_back( { pass, 0});
      for( int n = 0; n < instances; ++n)
      {
         auto& server = w->servers[ n];
         if( server.busy >= 0) events.push_back( { done, n});
         if( ! upset && server.alive && server.busy >= 0) events.push_back( { dies, n});
         if( ! upset && server.alive && server.busy >= 0) events.push_back( { shutdown, n});
      }
      for( int n = 0; n < ( int)w->calls.size(); ++n)
         if( ! upset && ( w->calls[ n].stage == Stage::pending || w->calls[ n].stage == Stage::holds || ( w->calls[ n].stage == Stage::timed_out && w->calls[ n].server >= 0 && w->servers[ w->calls[ n].server].busy == n))) events.push_back( { discard, n});
      if( events.empty()) break;
      auto event = events[ vex_choose( events.size(), "event")];
      if( event.kind >= dies) upset = true;
      switch( event.kind)
      {
         case look:
         {
            Call call;
            call.service = VEX_TIER || w->calls.empty() ? vex_range( 'a', 'b', "service") : 'a' + ( w->calls.size() - 1);
            call.caller = world::handle( 300 + w->calls.size());
            call.correlation = strong::correlation::id::generate();
            call.waits = event.arg == 1;
            if( ( VEX_TIER || w->calls.size() != 1) && vex_range( 0, 1, "with deadline")) call.wanted = vexp::now + vex_range( 1, longest, "deadline");
            // without instances it is up to the discovery
            bool available = false;
            for( auto& server : w->servers) available = available || ( server.alive && ! server.stopping);
            if( ! call.waits && available) call.deadline = deadline( call);
            w->calls.push_back( call);
            lookup::Request m{ call.caller};
            m.correlation = call.correlation;
            m.requested = std::string( 1, call.service);
            m.context.semantic = call.waits ? Semantic::wait : Semantic::regular;
            if( call.wanted) m.deadline = platform::time::point::type{ std::chrono::nanoseconds{ *call.wanted}};
            world::deliver( handler, m);
            break;
         }
         case pass:
         {
            vexp::now += vex_range( 1, 2 * longest, "time");
            // the timer of the process
            if( timer && *timer <= vexp::now)
            {
               timer.reset();
               casual::service::manager::handle::timeout( state);
            }
            observe();
            for( auto& call : w->calls)
               if( call.stage == Stage::pending || call.stage == Stage::holds)
                  vex_assert( ! call.deadline || *call.deadline >= vexp::now, "a call is told when its deadline has passed");
            break;
         }
         case done:
         {
            auto& server = w->servers[ event.arg];
            auto& call = w->calls[ std::exchange( server.busy, -1)];
            message::service::call::ACK m{};
            m.correlation = call.correlation;
            m.metric.process = server.process;
            m.metric.service = std::string( 1, call.service);
            call.transaction = vex_range( 0, 1, "transaction");
            if( call.transaction) m.metric.trid = common::transaction::id::create( process::handle());
            const bool late = std::exchange( server.timed_out, false);
            if( call.stage == Stage::holds) call.stage = Stage::ended;
            world::deliver( handler, m);
            observe();
            vex_assert( w->rollbacks == ( late && call.transaction ? 1 : 0), "what a call did in a transaction after it timed out is rolled back");
            w->rollbacks = 0;
            break;
         }
         case dies:
         {
            auto& server = w->servers[ event.arg];
            server.alive = false;
            auto& call = w->calls[ std::exchange( server.busy, -1)];
            exits( handler, server.process);
            world::drain( handler);
            observe();
            vex_assert( call.stage != Stage::holds, "the caller of an instance that dies is told");
            break;
         }
         case discard:
         {
            auto& call = w->calls[ event.arg];
            if( call.stage != Stage::pending) { w->servers[ call.server].busy = -1; w->servers[ call.server].timed_out = false;}
            call.stage = Stage::discarded;
            lookup::discard::Request m{ call.caller};
            m.correlation = call.correlation;
            m.reply = false;
            world::deliver( handler, m);
            break;
         }
         case shutdown:
         {
            auto& server = w->servers[ event.arg];
            server.stopping = true;
            message::domain::process::prepare::shutdown::Request m{ w->domain};
            m.processes.push_back( server.process);
            world::deliver( handler, m);
            break;
         }
      }
      world::drain( handler);
      observe();
   }
   vex_cover( "done");
}
