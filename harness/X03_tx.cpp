// the transactions of a process: what tx_* does to its resources, and what it says it did
#include "ipcworld.h"
#include "common/transaction/context.h"
#include "common/transaction/resource/link.h"
#include "common/message/transaction.h"
#include "common/message/service.h"
#include "common/code/tx.h"
#include "common/code/xatmi.h"

//@ bounds a process with 0 to 2 resources (thorough: 1 or 2) (statically linked, static registration), at most 1 call to a resource that fails per history (thorough: 2), with any code the XA specification has for it; client: any sequence of 5 (thorough: 6) of tx_begin, tx_commit, tx_rollback, suspend, resume (of any suspended), control unchained, chained or stacked, commit return when completed or when logged, an asynchronous call within the transaction, its reply with any transaction state; service: joined to a transaction of somebody else, started one of its own, or none, then any 3 (thorough: 4) of these and its return with success or failure; the transaction manager commits, rolls back, or tells that the outcome is a hazard
//@ outside dynamic registration, resources that have to be reopened and fail again, a transaction manager that is gone
//@ stubs the resource managers (XA switches with the state the XA specification gives a branch), the transaction manager, ipc transport

using namespace casual::common;
namespace message = casual::common::message;
using Context = transaction::Context;
using Control = transaction::Control;

// casual removes the macros of the specification
enum : int
{
   TMNOFLAGS = 0, TMNOMIGRATE = 2, TMONEPHASE = 0x40000000, TMRESUME = 0x08000000, TMSUSPEND = 0x02000000, TMJOIN = 0x00200000,
   XA_RBBASE = 100, XA_RBEND = 107, XA_HEURHAZ = 8, XA_HEURCOM = 7, XA_HEURRB = 6, XA_HEURMIX = 5, XA_OK = 0,
   XAER_RMERR = -3, XAER_NOTA = -4, XAER_PROTO = -6, XAER_DUPID = -8
};

namespace
{
   struct Branch
   {
      XID xid;
      enum State { active, suspended, idle, done} state = active;
      bool committed = false, rolled_back = false, only = false, delegated = false, heuristic = false, fake = false;
   };
   struct RM { std::vector< Branch> branches;};
   RM rms[ 3];
   int count = 1;
   int faults = 0;
   bool protocol = false; // a resource was misused
   bool failed = false;   // a resource has failed

   // compare the bytes of an xid that are used
   bool same( const XID& a, const XID& b)
   {
      return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length && memcmp( a.data, b.data, a.gtrid_length + a.bqual_length) == 0;
   }

   Branch* find( int rm, const XID& xid)
   {
      for( auto& b : rms[ rm].branches) if( same( b.xid, xid)) return &b;
      return nullptr;
   }

   // what the XA specification does not allow
   void misused( bool value) { if( value) protocol = true;}

   bool fails()
   {
      if( faults == 0 || ! vex_choose( 2, "fails")) return false;
      --faults;
      failed = true;
      return true;
   }

   int rolled_back_code() { return vex_range( XA_RBBASE, XA_RBEND, "rolled back");}

   int xa_open( const char*, int, long) { return XA_OK;}
   int xa_close( const char*, int, long) { return XA_OK;}
   int xa_start( XID* xid, int rm, long flags)
   {
      for( auto& b : rms[ rm].branches)
         vex_assert( b.state != Branch::active, "a resource is started when it does not work for another transaction");
      auto branch = find( rm, *xid);
      if( fails())
      {
         if( branch) branch->only = true;
         switch( vex_choose( 2, "start"))
         {
            case 0: return rolled_back_code();
            case 1: return XAER_RMERR;
         }
      }
      if( flags == TMRESUME)
      {
         // after a failure the association can be lost
         if( ! branch || branch->state != Branch::suspended) { misused( ! failed); return XAER_PROTO;}
         branch->state = Branch::active;
         vex_cover( "resource resumed");
         return XA_OK;
      }
      if( flags == TMJOIN)
      {
         if( branch) { misused( branch->state != Branch::idle); branch->state = Branch::active; return XA_OK;}
         rms[ rm].branches.push_back( Branch{ *xid});
         return XA_OK;
      }
      vex_assert( flags == TMNOFLAGS, "xa_start with flags of the specification");
      if( branch) { misused( true); return XAER_DUPID;}
      rms[ rm].branches.push_back( Branch{ *xid});
      return XA_OK;
   }
   int xa_end( XID* xid, int rm, long flags)
   {
      auto branch = find( rm, *xid);
      if( ! branch || branch->state == Branch::done || branch->state == Branch::idle) { misused( ! failed); return branch ? XAER_PROTO : XAER_NOTA;}
      if( flags == TMSUSPEND && branch->state == Branch::suspended) { misused( ! failed); return XAER_PROTO;}
      if( fails())
      {
         branch->state = Branch::idle;
         branch->only = true;
         vex_cover( "xa_end fails");
         return vex_choose( 2, "end") ? rolled_back_code() : XAER_RMERR;
      }
      branch->state = flags == TMSUSPEND ? Branch::suspended : Branch::idle;
      return XA_OK;
   }
   int xa_rollback( XID* xid, int rm, long)
   {
      auto branch = find( rm, *xid);
      if( ! branch) { misused( ! failed); return XAER_NOTA;}
      vex_assert( branch->state == Branch::idle, "a branch is rolled back after its end");
      branch->state = Branch::done;
      if( fails())
      {
         switch( vex_choose( 3, "rollback"))
         {
            case 0: branch->rolled_back = true; return rolled_back_code();
            case 1: branch->committed = branch->heuristic = true; return XA_HEURCOM;
            case 2: branch->rolled_back = branch->heuristic = true; return XA_HEURRB;
         }
      }
      branch->rolled_back = true;
      return XA_OK;
   }
   int xa_prepare( XID*, int, long) { misused( true); return XAER_PROTO;}
   int xa_commit( XID* xid, int rm, long flags)
   {
      auto branch = find( rm, *xid);
      vex_assert( branch && branch->state == Branch::idle, "a branch is committed after its end");
      vex_assert( flags == TMONEPHASE, "a client process commits in one phase");
      branch->state = Branch::done;
      if( branch->only) { branch->rolled_back = true; return rolled_back_code();}
      if( fails())
      {
         vex_cover( "commit fails");
         switch( vex_choose( 5, "commit"))
         {
            case 0: branch->rolled_back = true; return rolled_back_code();
            case 1: branch->committed = branch->heuristic = true; return XA_HEURCOM;
            case 2: branch->rolled_back = branch->heuristic = true; return XA_HEURRB;
            case 3: branch->committed = branch->rolled_back = branch->heuristic = true; return XA_HEURMIX;
            case 4: branch->rolled_back = true; return XAER_RMERR;
         }
      }
      branch->committed = true;
      return XA_OK;
   }
   int xa_recover( XID*, long, int, long) { return 0;}
   int xa_forget( XID*, int, long) { return XA_OK;}
   int xa_complete( int*, int*, int, long) { return XA_OK;}

   xa_switch_t xa{ "rm", TMNOMIGRATE, 0, xa_open, xa_close, xa_start, xa_end, xa_rollback, xa_prepare, xa_commit, xa_recover, xa_forget, xa_complete};

   enum class Told { nothing, committed, rolled_back, hazard};
   struct Told_by_manager { XID xid; Told told;};
   std::vector< Told_by_manager> told;

   // returns false if it can not be committed
   bool delegate( const XID& xid, const std::vector< strong::resource::id>& involved)
   {
      bool result = true;
      for( int rm = 1; rm <= count; ++rm)
         if( auto b = find( rm, xid); b && b->state != Branch::done)
         {
            vex_assert( b->state == Branch::idle, "resources are ended before the transaction manager is asked");
            bool found = false;
            for( auto& id : involved) if( id.value() == rm) found = true;
            vex_assert( found, "the transaction manager is told about every resource");
            if( b->only) result = false;
            b->delegated = true;
            b->state = Branch::done;
         }
      return result;
   }

   // the transaction manager answers at once
   bool manager( const strong::ipc::id&, const world::Complete& complete)
   {
      using Type = message::Type;
      if( complete.type() == Type::transaction_configuration_alias_request)
      {
         auto request = world::as< message::transaction::configuration::alias::Request>( complete);
         auto reply = message::reverse::type( request);
         for( int rm = 1; rm <= count; ++rm)
         {
            message::transaction::configuration::Resource resource;
            resource.id = strong::resource::id{ rm};
            resource.key = "key";
            resource.name = "rm";
            reply.resources.push_back( resource);
         }
         world::incoming.push_back( world::complete( reply));
      }
      else if( complete.type() == Type::transaction_resource_involved_request)
      {
         auto request = world::as< message::transaction::resource::involved::Request>( complete);
         if( request.reply)
         {
            auto reply = message::reverse::type( request);
            if( vex_choose( 2, "already involved")) reply.involved = request.involved;
            world::incoming.push_back( world::complete( reply));
         }
      }
      else if( complete.type() == Type::transaction_commit_request)
      {
         auto request = world::as< message::transaction::commit::Request>( complete);
         auto possible = delegate( request.trid.xid, request.involved);
         auto reply = message::reverse::type( request);
         using Stage = message::transaction::commit::reply::Stage;
         switch( possible ? vex_choose( 3, "manager") : 1)
         {
            case 0:
               told.push_back( { request.trid.xid, Told::committed});
               if( vex_choose( 2, "logged"))
               {
                  reply.stage = Stage::prepare;
                  world::incoming.push_back( world::complete( reply));
                  vex_cover( "logged");
               }
               reply.stage = Stage::commit;
               break;
            case 1:
               told.push_back( { request.trid.xid, Told::rolled_back});
               reply.stage = Stage::rollback;
               break;
            case 2:
               told.push_back( { request.trid.xid, Told::hazard});
               reply.stage = Stage::commit;
               reply.state = code::tx::hazard;
               break;
         }
         world::incoming.push_back( world::complete( reply));
         vex_cover( "the transaction manager commits");
      }
      else if( complete.type() == Type::transaction_rollback_request)
      {
         auto request = world::as< message::transaction::rollback::Request>( complete);
         delegate( request.trid.xid, request.involved);
         auto reply = message::reverse::type( request);
         told.push_back( { request.trid.xid, Told::rolled_back});
         world::incoming.push_back( world::complete( reply));
         vex_cover( "the transaction manager rolls back");
      }
      return false;
   }

   struct Trx
   {
      XID xid;
      bool suspended = false, owner = true, bad = false;
      int state = TX_ACTIVE;
      std::vector< strong::correlation::id> pending;
      bool external = false;
   };

   struct Run
   {
      Context& context = transaction::context();
      std::vector< Trx> trxs;
      Control control = Control::unchained;
      int resumable = 0;
      Trx* current()
      {
         return trxs.empty() || trxs.back().suspended ? nullptr : &trxs.back();
      }

      // what has become of it: told by the branches and the transaction manager
      bool somewhere_committed( const XID& xid)
      {
         for( int rm = 1; rm <= count; ++rm) if( auto b = find( rm, xid); b && b->committed) return true;
         for( auto& t : told) if( same( t.xid, xid) && t.told != Told::rolled_back) return true;
         return false;
      }
      bool somewhere_rolled_back( const XID& xid)
      {
         for( int rm = 1; rm <= count; ++rm) if( auto b = find( rm, xid); b && b->rolled_back) return true;
         for( auto& t : told) if( same( t.xid, xid) && t.told != Told::committed) return true;
         return false;
      }
      bool heuristic( const XID& xid)
      {
         for( int rm = 1; rm <= count; ++rm) if( auto b = find( rm, xid); b && b->heuristic) return true;
         for( auto& t : told) if( same( t.xid, xid) && t.told == Told::hazard) return true;
         return false;
      }

      void finished( const XID& xid)
      {
         for( int rm = 1; rm <= count; ++rm)
            if( auto b = find( rm, xid)) vex_assert( b->state == Branch::done, "no branch of a finished transaction is left");
      }

      // others that are involved in a transaction only know the transaction manager
      void asked( const Trx& trx)
      {
         if( ! trx.external) return;
         bool found = false;
         for( auto& t : told) if( same( t.xid, trx.xid)) found = true;
         vex_assert( found, "the transaction manager completes a transaction that others are involved in");
         vex_cover( "others are involved");
      }

      void observe()
      {
         TXINFO info{};
         bool in = context.info( &info);
         auto c = current();
         vex_assert( ! protocol, "resources are used as the XA specification tells");
         vex_assert( in == ( c != nullptr), "tx_info tells if there is a transaction");
         if( c)
         {
            vex_assert( same( info.xid, c->xid), "tx_info tells which transaction");
            vex_assert( info.transaction_state == c->state, "tx_info tells the state of the transaction");
         }
         for( int rm = 1; rm <= count; ++rm)
            for( auto& b : rms[ rm].branches)
            {
               if( b.state == Branch::active) vex_assert( c && same( b.xid, c->xid), "a resource works for the current transaction");
               if( c && same( b.xid, c->xid) && ! b.only) vex_assert( b.state == Branch::active, "resources work for the current transaction");
               if( b.state == Branch::done) continue;
               bool known = false;
               for( auto& t : trxs) if( same( t.xid, b.xid)) known = true;
               vex_assert( known, "no branch is left without a transaction");
            }
      }

      void begun()
      {
         TXINFO info{};
         vex_assert( context.info( &info), "there is a transaction after tx_begin");
         for( auto& t : trxs) vex_assert( ! same( t.xid, info.xid), "a new transaction is new");
         Trx t; t.xid = info.xid;
         trxs.push_back( t);
      }

      // after commit or rollback
      void consumed( Trx trx, code::tx result)
      {
         // nothing more to do for it
         finished( trx.xid);
         asked( trx);
         if( control == Control::chained && ! current())
         {
            TXINFO info{};
            bool in = context.info( &info);
            if( in && ! same( info.xid, trx.xid))
            {
               bool other = false;
               for( auto& t : trxs) if( same( t.xid, info.xid)) other = true;
               if( ! other) { begun(); vex_cover( "chained");}
               else vex_assert( failed, "chained: a new transaction");
            }
            else vex_assert( failed, "chained: a new transaction");
         }
      }

      bool step( int n)
      {
         switch( n)
         {
            case 0: // begin
            {
               auto c = current();
               auto code = context.begin();
               if( c && control != Control::stacked) { vex_assert( code == code::tx::protocol, "tx_begin in a transaction is a protocol error"); break;}
               if( code == code::tx::ok) { begun(); vex_cover( "begun");}
               else vex_assert( failed, "tx_begin succeeds");
               break;
            }
            case 1: // commit
            {
               auto c = current();
               if( ! c || ! c->owner || c->state != TX_ACTIVE || ! c->pending.empty())
               {
                  vex_assert( context.commit() == code::tx::protocol, "tx_commit without a transaction that can be committed is a protocol error");
                  break;
               }
               auto trx = *c;
               trxs.pop_back();
               bool before = failed;
               auto code = context.commit();
               if( ! failed) 
               {
                  if( ! somewhere_rolled_back( trx.xid)) vex_assert( code == code::tx::ok, "tx_commit is ok when it is committed");
                  else if( ! somewhere_committed( trx.xid)) vex_assert( code == code::tx::rollback, "tx_commit tells that it is rolled back");
                  else vex_assert( code == code::tx::hazard, "tx_commit tells about a hazard");
               }
               if( code == code::tx::ok) vex_assert( ! somewhere_rolled_back( trx.xid), "tx_commit is ok only if nothing is rolled back");
               if( code == code::tx::rollback) vex_assert( ! somewhere_committed( trx.xid), "tx_commit tells rollback only if nothing is committed");
               consumed( trx, code);
               break;
            }
            case 2:
            {
               auto c = current();
               if( ! c || ! c->owner)
               {
                  vex_assert( context.rollback() == code::tx::protocol, "tx_rollback without a transaction of its own is a protocol error");
                  break;
               }
               auto trx = *c;
               trxs.pop_back();
               auto code = context.rollback();
               if( ! failed) vex_assert( code == code::tx::ok, "tx_rollback succeeds");
               if( code == code::tx::ok) vex_assert( ! somewhere_committed( trx.xid), "tx_rollback is ok only if nothing is committed");
               consumed( trx, code);
               break;
            }
            case 3:
            {
               auto c = current();
               XID xid;
               auto code = context.suspend( &xid);
               if( ! c) { vex_assert( code == code::tx::protocol, "suspend without a transaction is a protocol error"); break;}
               if( code == code::tx::ok)
               {
                  vex_assert( same( xid, c->xid), "suspend tells which transaction");
                  vex_cover( "suspended");
               }
               else
               {
                  vex_assert( failed, "suspend succeeds");
                  vex_discard(); // what then is up to the implementation
               }
               c->suspended = true;
               break;
            }
            case 4:
            {
               if( trxs.empty()) return false;
               auto n = vex_choose( trxs.size(), "resume");
               auto xid = trxs[ n].xid;
               auto c = current();
               auto code = context.resume( &xid);
               if( c || ! trxs[ n].suspended) { vex_assert( code == code::tx::protocol, "resume of what is not suspended, or in a transaction, is a protocol error"); break;}
               if( code != code::tx::ok) { vex_assert( failed, "resume succeeds"); vex_discard();}
               auto trx = trxs[ n];
               trx.suspended = false;
               trxs.erase( trxs.begin() + n);
               trxs.push_back( trx);
               vex_cover( "resumed");
               break;
            }
            case 5:
            {
               static const Control controls[] = { Control::unchained, Control::chained, Control::stacked};
               auto wanted = controls[ vex_choose( 3, "control")];
               if( wanted == control) return false;
               control = wanted;
               vex_assert( context.set_transaction_control( control) == code::tx::ok, "control");
               break;
            }
            case 6:
               if( context.get_commit_return() == transaction::commit::Return::logged) return false;
               vex_assert( context.set_commit_return( transaction::commit::Return::logged) == code::tx::ok, "commit return");
               break;
            case 7: // an asynchronous call
            {
               auto c = current();
               if( ! c) return false;
               auto correlation = strong::correlation::id::generate();
               context.current().associate( correlation);
               c->pending.push_back( correlation);
               c->external = true;
               vex_assert( context.associated( correlation) == ( c->state == TX_ACTIVE), "the call belongs to the transaction");
               break;
            }
            case 8: // a reply, to the last transaction that waits for one
            {
               Trx* t = nullptr;
               for( auto& o : trxs) if( ! o.pending.empty()) t = &o;
               if( ! t) return false;
               message::service::call::Reply reply;
               reply.correlation = t->pending.back();
               t->pending.pop_back();
               using State = message::service::transaction::State;
               auto state = vex_range( 0, 3, "state of the reply");
               reply.transaction_state = static_cast< State>( state);
               context.update( reply);
               switch( reply.transaction_state)
               {
                  case State::ok: break;
                  case State::timeout: if( t->state == TX_ACTIVE) t->state = TX_TIMEOUT_ROLLBACK_ONLY; break;
                  case State::rollback: case State::error: t->state = TX_ROLLBACK_ONLY; break;
               }
               vex_assert( ! context.associated( reply.correlation), "the call is done");
               break;
            }
         }
         return true;
      }
   };

   void setup( int resources, int bad)
   {
      count = resources;
      world::fails = manager;
      process::handle();
      std::vector< transaction::resource::Link> links;
      for( int n = 0; n < count; ++n) links.emplace_back( "key", &xa);
      transaction::context().configure( std::move( links));
      faults = bad;
   }

   void client( int resources, int bad, int steps)
   {
      setup( resources, bad);
      Run run;
      for( int n = 0; n < steps; ++n)
      {
         if( ! run.step( vex_choose( 9, "event"))) vex_discard();
         run.observe();
      }
      vex_observe( "transactions", run.trxs.size());
   }

   void callee( int resources, int bad, int steps)
   {
      setup( resources, bad);
      Run run;
      auto kind = vex_choose( 3, "service");
      std::optional< transaction::ID> caller;
      auto before = [&]( auto code) { try { code(); return true;} catch( ...) { vex_assert( failed, "a service can join or start a transaction"); return false;}};
      Uuid::uuid_type raw{}; raw[ 0] = 0x77;
      switch( kind)
      {
         case 0:
            caller.emplace( Uuid{ raw}, Uuid{ raw}, world::handle( 700));
            before( [&]() { run.context.join( *caller);});
            if( vex_choose( 2, "branched")) vex_discard();
            break;
         case 1: before( [&]() { run.context.start();}); break;
         case 2: before( [&]() { run.context.join( transaction::ID{ process::handle()});}); break;
      }
      bool started = ! failed;
      if( started && kind != 2)
      {
         TXINFO info{};
         vex_assert( run.context.info( &info), "the service is in the transaction");
         Trx t; t.xid = info.xid; t.owner = kind == 1;
         run.trxs.push_back( t);
         run.observe();
      }
      if( kind == 2) run.observe();

      if( started)
         for( int n = 0; n < steps; ++n)
         {
            auto event = vex_choose( 6, "event");
            static const int events[] = { 0, 1, 2, 3, 7, 8};
            // a joined transaction that has been suspended: TX_OUTSIDE and such, not for a service without transaction
            if( kind == 2 && events[ event] == 3) vex_discard();
            if( ! run.step( events[ event])) vex_discard();
         }

      bool success = started && vex_choose( 2, "return");
      auto trxs = run.trxs;
      auto result = run.context.finalize( success);
      using State = message::service::transaction::State;
      vex_assert( ! protocol, "resources are used as the XA specification tells");
      vex_assert( run.context.empty(), "nothing is left when the service has returned");
      bool pending = false;
      for( auto& t : trxs)
      {
         if( ! t.pending.empty()) pending = true;
         if( t.owner)
         {
            run.finished( t.xid);
            run.asked( t);
            bool may = success && t.state == TX_ACTIVE && t.pending.empty();
            if( ! may) vex_assert( ! run.somewhere_committed( t.xid) || failed, "a transaction that must not be committed is not");
            if( ! may) for( auto& o : told) if( same( o.xid, t.xid)) vex_assert( o.told == Told::rolled_back, "the transaction manager is not asked to commit it");
            if( may && ! failed && ! run.somewhere_rolled_back( t.xid)) vex_cover( "committed when the service returns");
            if( success && run.somewhere_rolled_back( t.xid)) vex_assert( result != State::ok, "the caller is told that it did not work");
         }
         else
         {
            for( int rm = 1; rm <= count; ++rm)
               if( auto b = find( rm, t.xid))
               {
                  vex_assert( b->state == Branch::idle, "resources of the caller's transaction are ended, and no more");
                  if( b->only) vex_assert( result != State::ok, "the caller is told that a resource can not go on");
               }
            if( t.state != TX_ACTIVE || ! success) vex_assert( result != State::ok, "the caller is told that its transaction can not be committed");
            if( t.state == TX_TIMEOUT_ROLLBACK_ONLY && success && ! failed && ! pending && trxs.size() == 1) vex_assert( result == State::timeout, "the caller is told that its transaction has timed out");
         }
      }
      if( ! pending && ! failed && success && trxs.empty()) vex_assert( result == State::ok, "nothing wrong");
      if( pending) { vex_assert( result != State::ok, "the caller is told about calls without reply"); vex_cover( "returned with calls pending");}
      // and nothing works for a transaction any more
      for( int rm = 1; rm <= count; ++rm)
         for( auto& b : rms[ rm].branches)
         {
            vex_assert( b.state == Branch::idle || b.state == Branch::done, "no resource works for a transaction when the service has returned");
            if( kind != 0) vex_assert( b.state == Branch::done, "no branch is left when the service has returned");
         }
   }
}

VEX_ENTRY( client) { client( vex_choose( 3, "resources"), 1, 5);}
VEX_ENTRY( service) { callee( vex_choose( 3, "resources"), 1, 3);}
VEX_ENTRY_THOROUGH( client_deeper) { client( 1 + vex_choose( 2, "resources"), 2, 6);}
VEX_ENTRY_THOROUGH( service_deeper) { callee( 1 + vex_choose( 2, "resources"), 2, 4);}
