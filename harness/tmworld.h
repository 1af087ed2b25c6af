// a transaction manager with resources, and what an observer of its messages can say about a transaction
#pragma once
#include "ipcworld.h"
#include "transaction/manager/handle.h"
#include "transaction/manager/state.h"
#include "transaction/manager/admin/server.h"
#include "common/message/transaction.h"
#include "common/message/event.h"

namespace txw
{
   using namespace casual::common;
   namespace txm = casual::common::message::transaction;
   using State = casual::transaction::manager::State;
   using xa = code::xa;
   using tx = code::tx;

   // the persistent log, as the manager uses it
   inline int logged = 0, persisted = 0, unpersisted = 0;

   inline State*& state() { static State* s = new State; return s;}

   enum class Kind { prepare, commit, rollback};

   struct Request
   {
      Kind kind;
      strong::resource::id resource;
      strong::ipc::id destination;
      world::Complete complete;
      casual::common::transaction::ID trid;
      flag::xa::Flag flags;
   };

   template< typename M>
   void collect( std::vector< Request>& result, const world::Sent& sent, Kind kind)
   {
      auto m = world::as< M>( sent.complete);
      result.push_back( Request{ kind, m.resource, sent.destination, world::copy( sent.complete), m.trid, m.flags});
   }

   inline code::xa any_code( const char* name)
   {
      int c = ( int)vex_range( -9, 107, name);
      // every code an xa call can give
      vex_assume( c == 0 || c == 3 || ( c >= 100 && c <= 107) || ( c >= 4 && c <= 9) || ( c <= -2 && c >= -9));
      return static_cast< code::xa>( c);
   }

   inline bool nothing_to_do( code::xa c) { return c == code::xa::read_only;}
   inline bool fine( code::xa c) { return c == code::xa::ok || c == code::xa::read_only;}

   template< typename Handler>
   void reply( Handler& handler, const Request& request, const process::Handle& from, code::xa code)
   {
      auto send = [&]( auto message)
      {
         auto r = casual::common::message::reverse::type( message, from);
         r.trid = message.trid;
         r.resource = message.resource;
         r.state = code;
         world::deliver( handler, r);
      };
      switch( request.kind)
      {
         case Kind::prepare: send( world::as< txm::resource::prepare::Request>( request.complete)); break;
         case Kind::commit: send( world::as< txm::resource::commit::Request>( request.complete)); break;
         case Kind::rollback: send( world::as< txm::resource::rollback::Request>( request.complete)); break;
      }
   }
}

extern "C"
{
   __attribute__(( used)) void __stub__ZN6casual11transaction7manager5admin8servicesERNS1_5StateE( casual::common::server::Arguments* result, txw::State&) { new ( result) casual::common::server::Arguments{};}
   __attribute__(( used)) void __stub__ZN6casual11transaction7manager3Log7prepareERKNS1_5state11TransactionE( casual::transaction::manager::Log*, const casual::transaction::manager::state::Transaction& t) { ++txw::logged; ++txw::unpersisted;}
   __attribute__(( used)) void __stub__ZN6casual11transaction7manager3Log6removeENS_6common6strong4SpanIKSt4byteNS3_11transaction6global2id3tagEEE() { ++txw::unpersisted;}
   __attribute__(( used)) void __stub__ZN6casual11transaction7manager3Log7persistEv() { txw::unpersisted = 0; ++txw::persisted;}
}
