// the outcome of a transaction: whatever the resources answer, in whatever order, and whatever happens in between
#include "tmworld.h"

//@ bounds one transaction of a client over every subset of two local resources (one proxy instance each) and one external resource; commit or rollback; each answer to prepare, commit and rollback is ok, read only or resource failure (quick: with all three resources ok or failure); every order of answers; the idle action (persisting) at every point; and up to (quick; 2 with one local and the external resource, otherwise 1) / 3 (thorough; 2) of: an answer that is any XA code, the client asks again, the external resource disappears, the client dies
//@ outside the persistent log itself, resource proxy deaths
//@ stubs ipc transport (messages recorded, complete or failed), transaction log (prepare, remove, persist recorded)

//@ libs sqlite3

using namespace casual;
using namespace txw;

namespace
{
   // how many of: an arbitrary XA code as answer, an unexpected event
   int extras = 0;
   // only ok and failure, unless the answer is arbitrary
   bool few = false;
   const auto client = []{ return world::handle( 100);};
   const auto external = []{ return world::handle( 300);};

   struct Resource
   {
      strong::resource::id id;
      process::Handle process;
      bool local = true;
      bool involved = false, prepared = false, commited = false, rolledback = false, gone = false;
      bool prepare_done = false, commit_done = false, rollback_done = false;
      code::xa prepare_code{}, commit_code{}, rollback_code{};
   };

   code::xa answer_code()
   {
      if( extras > 0 && vex_choose( 2, "wild")) { --extras; return any_code( "code");}
      constexpr code::xa codes[] = { xa::ok, xa::read_only, xa::resource_fail};
      return codes[ few ? vex_choose( 2, "answer") * 2 : vex_choose( 3, "answer")];
   }

   struct World
   {
      std::vector< Resource> resources;
      std::vector< Request> outstanding;
      int finals = 0, prepared_replies = 0, protocols = 0, asked = 0;
      bool ask_commit = false, client_died = false, one_phase = false, external_gone = false;
      tx final_state{};
      txm::commit::reply::Stage final_stage{};

      Resource* find( strong::resource::id id) { for( auto& r : resources) if( r.id == id) return &r; return nullptr;}
      int involved() { int n = 0; for( auto& r : resources) n += r.involved; return n;}
      bool any_commit() { for( auto& r : resources) if( r.commited) return true; return false;}
      bool any_rollback() { for( auto& r : resources) if( r.rolledback) return true; return false;}

      void request( const world::Sent& sent, Kind kind)
      {
         std::vector< Request> collected;
         if( kind == Kind::prepare) collect< txm::resource::prepare::Request>( collected, sent, kind);
         else if( kind == Kind::commit) collect< txm::resource::commit::Request>( collected, sent, kind);
         else collect< txm::resource::rollback::Request>( collected, sent, kind);
         auto& r = collected.front();
         auto resource = find( r.resource);
         vex_assert( resource && resource->involved && resource->process.ipc == r.destination, "requests go to the resources that are involved");
         for( auto& o : outstanding) vex_assert( o.resource != r.resource || ! resource->local, "a resource proxy has one request at a time");
         switch( kind)
         {
            case Kind::prepare:
               vex_assert( ! any_commit() && ! any_rollback() && ! resource->prepared, "prepare comes first, once");
               resource->prepared = true;
               break;
            case Kind::commit:
               vex_assert( ! any_rollback(), "no resource commits when another is rolled back");
               vex_assert( ! resource->commited, "a resource commits once");
               if( flag::contains( r.flags, flag::xa::Flag::one_phase))
               {
                  vex_assert( involved() == 1 && ! resource->prepared, "one phase commit only with one resource, not prepared");
                  one_phase = true;
               }
               else
               {
                  for( auto& o : resources)
                     if( o.involved) vex_assert( o.prepare_done && fine( o.prepare_code), "commit only when every resource is prepared");
                  vex_assert( ! nothing_to_do( resource->prepare_code), "no commit to a resource that has nothing to do");
                  vex_assert( logged == 1, "commit only when the decision is logged");
               }
               resource->commited = true;
               break;
            case Kind::rollback:
               vex_assert( ! any_commit(), "no resource is rolled back when another commits");
               vex_assert( ! resource->rolledback, "a resource is rolled back once");
               vex_assert( ! ( resource->prepare_done && nothing_to_do( resource->prepare_code)), "no rollback to a resource that has nothing to do");
               resource->rolledback = true;
               break;
         }
         outstanding.push_back( std::move( r));
      }

      void final( tx state, txm::commit::reply::Stage stage)
      {
         ++finals;
         vex_assert( finals == 1, "the client gets one outcome");
         final_state = state; final_stage = stage;
         vex_observe( "final state", ( long)state);
         for( auto& r : resources)
            if( r.involved) vex_assert( ! r.commited || r.commit_done || r.gone, "the client is told when every resource is done");
         for( auto& r : resources)
            if( r.involved) vex_assert( ! r.rolledback || r.rollback_done || r.gone, "the client is told when every resource is done");
         for( auto& r : resources)
            if( r.involved && r.prepare_done && r.prepare_code == xa::ok && ! r.gone) vex_assert( r.commited || r.rolledback, "a prepared resource is told the outcome before the client is");
         for( auto& r : resources)
            if( r.involved && ! r.prepared) vex_assert( r.commited || r.rolledback || r.gone, "every involved resource takes part in the outcome");
         using ReplyStage = txm::commit::reply::Stage;
         const bool asked_for = stage == ( ask_commit ? ReplyStage::commit : ReplyStage::rollback);
         if( state == tx::ok && asked_for && ask_commit)
         {
            for( auto& r : resources)
               if( r.involved)
               {
                  vex_assert( ! r.rolledback, "success is committed everywhere");
                  if( one_phase) vex_assert( fine( r.commit_code) || r.commit_code == xa::invalid_xid, "success is committed everywhere");
                  else vex_assert( nothing_to_do( r.prepare_code) || ( r.commit_done && ( fine( r.commit_code) || r.commit_code == xa::invalid_xid)), "success is committed everywhere");
               }
         }
         if( state == tx::ok && ! ask_commit)
         {
            for( auto& r : resources)
               if( r.involved) vex_assert( r.rolledback && ( fine( r.rollback_code) || r.rollback_code == xa::invalid_xid), "rollback is ok when every resource has rolled back");
         }
         // the other way around: nothing wrong, nothing reported
         bool all = true;
         for( auto& r : resources)
            if( r.involved)
               all = all && ! r.gone && ( ! r.prepared || fine( r.prepare_code)) && ( ! r.commited || fine( r.commit_code)) && ( ! r.rolledback || fine( r.rollback_code));
         if( all) vex_assert( state == tx::ok && asked_for, "no failure is reported when all went well");
         if( state == tx::ok) vex_cover( "outcome ok");
         else vex_cover( "outcome not ok");
      }

      void observe()
      {
         auto sent = std::exchange( world::sent, {});
         for( auto& s : sent)
         {
            using Type = casual::common::message::Type;
            switch( s.complete.type())
            {
               case Type::transaction_resource_prepare_request: request( s, Kind::prepare); break;
               case Type::transaction_resource_commit_request: request( s, Kind::commit); break;
               case Type::transaction_resource_rollback_request: request( s, Kind::rollback); break;
               case Type::transaction_commit_reply:
               {
                  auto m = world::as< txm::commit::Reply>( s.complete);
                  vex_assert( s.destination == client().ipc, "the client gets the reply");
                  if( m.state == tx::protocol && protocols + 1 < asked) { ++protocols; break;}
                  if( m.stage == txm::commit::reply::Stage::prepare)
                  {
                     ++prepared_replies;
                     vex_assert( prepared_replies == 1 && m.state == tx::ok, "the client is told once that the transaction is prepared");
                     for( auto& r : resources)
                        if( r.involved) vex_assert( r.prepare_done && fine( r.prepare_code), "prepared is reported when every resource is prepared");
                     vex_assert( logged == 1 && unpersisted == 0 && persisted > 0, "prepared is reported when the decision is on disk");
                     vex_cover( "told prepared");
                  }
                  else final( m.state, m.stage);
                  break;
               }
               case Type::transaction_rollback_reply:
               {
                  auto m = world::as< txm::rollback::Reply>( s.complete);
                  vex_assert( s.destination == client().ipc, "the client gets the reply");
                  final( m.state, txm::commit::reply::Stage::rollback);
                  break;
               }
               default: break;
            }
         }
      }
   };
}

VEX_ENTRY( outcome)
{
   auto& state = *txw::state();
   World w;
   for( int i = 0; i < 2; ++i)
   {
      casual::transaction::manager::state::resource::Proxy proxy{ {}};
      Resource r;
      r.id = proxy.id;
      r.process = world::handle( 200 + i);
      auto& instance = proxy.instances.emplace_back( proxy.id, r.process.pid);
      instance.process = r.process;
      instance.state( casual::transaction::manager::state::resource::proxy::instance::State::idle);
      state.resources.push_back( std::move( proxy));
      w.resources.push_back( r);
   }
   auto handler = casual::transaction::manager::handle::handlers( state);
   common::transaction::ID trid{ client()};

   const int subset = vex_choose( 8, "involved");
   few = subset == 7 && ! VEX_TIER;
   extras = ( subset == 5 ? 2 : 1) + ( VEX_TIER ? 1 : 0);
   w.resources[ 0].involved = subset & 1;
   w.resources[ 1].involved = subset & 2;

   if( subset & 4)
   {
      txm::resource::external::Involved m{ external()};
      m.trid = trid;
      world::deliver( handler, m);
      Resource r;
      r.id = state.externals.front().id;
      r.process = external();
      r.local = false;
      r.involved = true;
      w.resources.push_back( r);
   }
   const bool late = ( subset == 1 || subset == 3 || subset == 6) && vex_choose( 2, "involved with the request");
   if( ( subset & 3) && ! late)
   {
      txm::resource::involved::Request m{ client()};
      m.trid = trid;
      m.reply = subset == 2;
      for( int i = 0; i < 2; ++i) if( w.resources[ i].involved) m.involved.push_back( w.resources[ i].id);
      world::deliver( handler, m);
      world::sent.clear();
   }
   w.ask_commit = vex_choose( 2, "commit");
   auto ask = [&]( bool late)
   {
      ++w.asked;
      auto fill = [&]( auto m)
      {
         m.trid = trid;
         if( late) for( int i = 0; i < 2; ++i) if( w.resources[ i].involved) m.involved.push_back( w.resources[ i].id);
         world::deliver( handler, m);
      };
      if( w.ask_commit) fill( txm::commit::Request{ client()});
      else fill( txm::rollback::Request{ client()});
   };
   ask( late);
   w.observe();

   for(;;)
   {
      world::drain( handler);
      w.observe();
      const bool done = w.outstanding.empty();
      if( done && state.persistent.replies.empty()) break;
      // what is next: an answer, idle, or something unexpected
      enum { answer, idle, again, vanish, died};
      int options[ 5], count = 0;
      if( ! done) options[ count++] = answer;
      if( ! state.persistent.replies.empty()) options[ count++] = idle;
      if( extras > 0 && ! done && w.finals == 0)
      {
         if( w.ask_commit) options[ count++] = again;
         if( subset & 4 && ! w.external_gone) options[ count++] = vanish;
         if( ! w.client_died) options[ count++] = died;
      }
      switch( options[ vex_choose( count, "next")])
      {
         case answer:
         {
            auto n = vex_choose( w.outstanding.size(), "who");
            auto request = std::move( w.outstanding[ n]);
            w.outstanding.erase( w.outstanding.begin() + n);
            auto& r = *w.find( request.resource);
            auto code = answer_code();
            switch( request.kind)
            {
               case Kind::prepare: r.prepare_done = true; r.prepare_code = code; break;
               case Kind::commit: r.commit_done = true; r.commit_code = code; break;
               case Kind::rollback: r.rollback_done = true; r.rollback_code = code; break;
            }
            txw::reply( handler, request, r.process, code);
            break;
         }
         case idle: casual::transaction::manager::handle::persist::send( state); break;
         case again: --extras; ask( false); vex_cover( "asked again"); break;
         case vanish:
         {
            --extras;
            auto& r = w.resources[ 2];
            r.gone = true; w.external_gone = true;
            for( auto i = w.outstanding.begin(); i != w.outstanding.end();) i = i->resource == r.id ? w.outstanding.erase( i) : i + 1;
            world::gone.push_back( r.process.ipc);
            casual::common::message::event::ipc::Destroyed m{ process::handle()};
            m.process = r.process;
            world::deliver( handler, m);
            vex_cover( "external vanished");
            break;
         }
         case died:
         {
            --extras;
            w.client_died = true;
            casual::common::message::event::process::Exit m{};
            m.process = process::handle();
            m.state.pid = client().pid;
            m.state.reason = decltype( m.state.reason)::core;
            world::deliver( handler, m);
            vex_cover( "client died");
            break;
         }
      }
      w.observe();
   }
   world::drain( handler);
   w.observe();
   vex_assert( w.finals == 1 || w.client_died, "the client gets an outcome when every resource has answered");
   vex_assert( w.protocols == w.asked - 1 || w.client_died, "asking again while in progress is refused");
   vex_assert( state.pending.requests.empty(), "no request is left");
   if( ! w.client_died) vex_assert( state.transactions.empty(), "nothing is left of the transaction");
   for( auto& resource : state.resources)
      for( auto& instance : resource.instances)
         vex_assert( instance.state() == casual::transaction::manager::state::resource::proxy::instance::State::idle, "every proxy is idle afterwards");
   vex_cover( "done");
}
