// a service manager with server instances and callers, and what an observer of its messages can say about calls
#pragma once
#include "ipcworld.h"
#include "service/manager/handle.h"
#include "service/manager/state.h"
#include "service/manager/admin/server.h"
#include "common/message/service.h"
#include "common/message/event.h"
#include "common/message/domain.h"
#include "common/signal/timer.h"
#include "domain/message/discovery.h"

namespace smw
{
   using namespace casual::common;
   namespace message = casual::common::message;
   namespace lookup = casual::common::message::service::lookup;
   using State = casual::service::manager::State;
   using Type = message::Type;
   using Semantic = lookup::request::context::Semantic;

   // when the timer of the process fires, if it is set
   inline std::optional< int64_t> timer;

   inline State*& state() { static State* s = new State; return s;}

   template< typename H>
   void exits( H& handler, const process::Handle& who)
   {
      message::event::process::Exit m{};
      m.process = process::handle();
      m.state.pid = who.pid;
      m.state.reason = decltype( m.state.reason)::core;
      world::deliver( handler, m);
   }

   template< typename H>
   void advertises( H& handler, const process::Handle& who, std::vector< std::string> add, std::vector< std::string> remove = {})
   {
      message::service::Advertise m{ who};
      m.alias = "server";
      for( auto& name : add) m.services.add.push_back( message::service::advertise::Service{ .name = name});
      m.services.remove = std::move( remove);
      world::deliver( handler, m);
   }
}

extern "C"
{
   __attribute__(( used)) void __stub__ZN6casual7service7manager5admin8servicesERNS1_5StateE( casual::common::server::Arguments* result, smw::State&) { new ( result) casual::common::server::Arguments{};}
   __attribute__(( used)) casual::common::signal::timer::unit::type __stub__ZN6casual6common6signal5timer3setESt8optionalINSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEEE( casual::common::signal::timer::unit::type offset)
   {
      if( offset) smw::timer = vexp::now + std::chrono::duration_cast< std::chrono::nanoseconds>( *offset).count();
      else smw::timer.reset();
      return {};
   }
}
