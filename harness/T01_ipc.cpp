// messages between the processes of a domain: every message arrives once, whole and in order, or its sender is told that it does not
#include "prelude.h"
#include "common/communication/ipc.h"
#include "common/communication/ipc/send.h"
#include "common/communication/ipc/message.h"
#include "common/communication/device.h"
#include "common/communication/select.h"
#include "common/code/raise.h"
#include "common/code/casual.h"

#include <cerrno>
#include <deque>

//@ bounds delivery: one or two senders (one that multiplexes, one that blocks), two destinations whose queues hold 1 datagram; up to 3 messages of 16 bytes, one full datagram, or one byte more, arbitrary bytes at the beginning, the end and where the parts meet; every history of 5 events (4 with two senders; thorough: 5) of: a message is sent, a destination reads a datagram or ends, the multiplexer finds a destination writable, or tries all that is pending, or is told that a destination is gone; what is done when a message can not be delivered: nothing, or a message to the other destination; selection: 2 (thorough: 3) messages, each with an arbitrary one of 2 types and 2 correlations, in any interleaving of their chunks; every history of 4 receives (any, type, types, correlation, both, only what is cached) with arbitrary arguments, and one discard
//@ outside signals that interrupt, real file descriptors, queues that are short of kernel memory, a sender that repeats a message from the beginning
//@ stubs sendto, recv, select: datagram queues of the harness

using namespace casual::common;
namespace ipc = casual::common::communication::ipc;
using Complete = ipc::message::Complete;
using Device = ipc::inbound::Device;
constexpr auto datagram = ipc::message::transport::max_payload_size();

namespace casual::common::environment::directory
{
   namespace { const std::filesystem::path& fixed() { static const std::filesystem::path p{ "/x"}; return p;}}
   __attribute__(( weak)) const std::filesystem::path& ipc() { return fixed();}
}

namespace
{
   struct Mailbox
   {
      std::deque< std::vector< char>> datagrams;
      std::size_t capacity = 1;
      int gone = 0; // or the error of who sends to it
   };
   Mailbox mailboxes[ 2];
   int next_device = 0;
   int next_socket = 20;

   strong::ipc::id ipc_id( unsigned n)
   {
      Uuid::uuid_type raw{};
      raw[ 0] = 0x1c; raw[ 15] = n;
      return strong::ipc::id{ Uuid{ raw}};
   }

   strong::correlation::id correlation( unsigned n)
   {
      Uuid::uuid_type raw{};
      raw[ 0] = 0xc0; raw[ 15] = n;
      return strong::correlation::id{ Uuid{ raw}};
   }

   void enqueued( const ipc::message::transport::Header& header);

   ssize_t enqueue( const sockaddr_un& address, const void* data, std::size_t size, bool block)
   {
      std::string_view path{ address.sun_path};
      auto& mailbox = mailboxes[ path.back() - '0'];
      if( mailbox.gone) { errno = mailbox.gone; return -1;}
      if( mailbox.datagrams.size() >= mailbox.capacity && ! block) { errno = EAGAIN; return -1;}
      auto first = static_cast< const char*>( data);
      mailbox.datagrams.emplace_back( first, first + size);
      ipc::message::transport::Header header;
      memcpy( &header, data, sizeof( header));
      if( header.offset + header.count == header.size) enqueued( header);
      return size;
   }

   ssize_t dequeue( int fd, void* data, std::size_t size)
   {
      auto& mailbox = mailboxes[ fd - 10];
      if( mailbox.datagrams.empty()) { errno = EAGAIN; return -1;}
      auto& front = mailbox.datagrams.front();
      vex_assert( front.size() <= size, "a datagram fits");
      auto count = front.size();
      memcpy( data, front.data(), count);
      mailbox.datagrams.pop_front();
      return count;
   }
}

extern "C"
{
   __attribute__(( used)) ssize_t __weak_sendto( int, const void* data, size_t size, int flags, const sockaddr* address, socklen_t) { return enqueue( *reinterpret_cast< const sockaddr_un*>( address), data, size, ! ( flags & MSG_DONTWAIT));}
   __attribute__(( used)) ssize_t __weak_recv( int fd, void* data, size_t size, int) { return dequeue( fd, data, size);}
   // ipc::native::detail::create::domain::socket
   __attribute__(( used)) void __stub__ZN6casual6common13communication3ipc6native6detail6create6domain6socketEv( casual::common::communication::Socket* result)
   {
      new ( result) casual::common::communication::Socket{ strong::socket::id{ next_socket++}};
   }
   // ipc::inbound::Connector::Connector()
   __attribute__(( used)) void __stub__ZN6casual6common13communication3ipc7inbound9ConnectorC2Ev( ipc::inbound::Connector* self)
   {
      new ( &self->handle()) ipc::Handle{ casual::common::communication::Socket{ strong::socket::id{ 10 + next_device}}, ipc_id( next_device)};
      ++next_device;
   }
   __attribute__(( used)) void __stub__ZN6casual6common13communication3ipc7inbound9ConnectorD2Ev( ipc::inbound::Connector*) {}
}

namespace
{
   struct Original
   {
      strong::correlation::id correlation;
      message::Type type{};
      casual::platform::binary::type payload;
      int destination = 0;
      int received = 0, failed = 0;
      bool enqueued = false;
      bool multiplexed = true, accepted = true;
      int device = -1;
   };
   std::vector< Original> originals;

   Original* find( const strong::correlation::id& id, message::Type type)
   {
      for( auto& o : originals) if( o.correlation == id && o.type == type) return &o;
      return nullptr;
   }
   Original* find( const strong::correlation::id& id)
   {
      for( auto& o : originals) if( o.correlation == id) return &o;
      return nullptr;
   }

   Complete make( std::size_t size, message::Type type, const strong::correlation::id& id, int destination)
   {
      Original original;
      original.correlation = id;
      original.type = type;
      original.payload.resize( size);
      // arbitrary at the beginning, the end, and around where the parts meet
      memset( original.payload.data(), 0x5a, size);
      auto arbitrary = [&]( std::size_t first, std::size_t last) { if( last > size) last = size; if( first < last) vex_bytes( original.payload.data() + first, last - first, "payload");};
      arbitrary( 0, 16);
      for( std::size_t at = datagram; at < size; at += datagram) arbitrary( at - 2, at + 2);
      if( size > 16) arbitrary( size - 2, size);
      original.destination = destination;
      auto payload = original.payload;
      originals.push_back( std::move( original));
      return Complete{ type, id, std::move( payload)};
   }

   // the last part is in the queue of the destination
   void enqueued( const ipc::message::transport::Header& header)
   {
      if( auto found = find( strong::correlation::id{ Uuid{ header.correlation}}, header.type)) found->enqueued = true;
   }

   bool same( const casual::platform::binary::type& a, const casual::platform::binary::type& b)
   {
      if( a.size() != b.size()) return false;
      return memcmp( a.data(), b.data(), a.size()) == 0;
   }

   std::size_t size_of( unsigned n)
   {
      switch( n)
      {
         case 0: return 16;
         case 1: return datagram;
         case 2: return datagram + 1;
         case 3: return 2 * datagram + 1;
         case 4: return datagram - 1;
         case 5: return 2 * datagram;
         default: return 3 * datagram - 1;
      }
   }

   void delivery( unsigned steps, unsigned messages, unsigned capacities, unsigned sizes, bool blocking)
   {
      Device devices[ 2];
      communication::select::Directive directive;
      ipc::send::Coordinator multiplex{ directive};
      ipc::send::Coordinator* coordinator = &multiplex;
      for( auto& m : mailboxes) m.capacity = 1 + vex_choose( capacities, "capacity");
      unsigned sent = 0, failures = 0;
      bool use[ 2] = {};
      std::vector< strong::correlation::id> order[ 2];

      auto failed = [&]( const strong::ipc::id& destination, const Complete& complete)
      {
         auto original = find( complete.correlation(), complete.type());
         vex_assert( original != nullptr, "told about a message that was sent");
         vex_assert( destination == ipc_id( original->destination), "told about its destination");
         vex_assert( same( original->payload, complete.payload) && complete.type() == original->type, "who is told gets the message");
         vex_assert( mailboxes[ original->destination].gone || use[ original->destination], "a message fails only when its destination is gone");
         ++original->failed;
         ++failures;
         // what a manager does: tells somebody else about it
         if( ! vex_choose( 2, "tell")) return;
         vex_cover( "a failed message leads to another");
         auto other = 1 - original->destination;
         auto id = correlation( originals.size());
         auto message = make( 16, message::Type::service_reply, id, other);
         auto result = coordinator->send( ipc_id( other), std::move( message), [ coordinator, &use]( auto& destination, auto& complete)
         {
            auto original = find( complete.correlation(), complete.type());
            vex_assert( original && ! original->failed, "told once");
            ++original->failed;
         });
         if( result) order[ other].push_back( id);
      };

      auto collect = [&]( int d)
      {
         while( auto complete = devices[ d].cached())
         {
            auto original = find( complete.correlation(), complete.type());
            vex_assert( original != nullptr, "received what was sent");
            vex_assert( original->destination == d && ! original->received, "received once, where it was sent to");
            vex_assert( ! original->failed, "what the sender was told failed has not arrived");
            vex_assert( complete.type() == original->type && same( complete.payload, original->payload), "received as it was sent");
            ++original->received;
            if( original->multiplexed)
            {
               vex_assert( ! order[ d].empty() && order[ d].front() == complete.correlation(), "received in the order it was sent");
               order[ d].erase( order[ d].begin());
            }
            vex_cover( "received");
            if( complete.payload.size() > datagram) vex_cover( "received in parts");
         }
      };

      auto reads = [&]( int d)
      {
         if( mailboxes[ d].datagrams.empty()) return false;
         // one datagram into the cache
         mailboxes[ d].capacity += 1000;
         auto left = std::move( mailboxes[ d].datagrams);
         mailboxes[ d].datagrams.clear();
         mailboxes[ d].datagrams.push_back( std::move( left.front()));
         left.pop_front();
         (void)devices[ d].select( []( auto&) { return false;}, ipc::policy::non::Blocking{});
         mailboxes[ d].datagrams = std::move( left);
         mailboxes[ d].capacity -= 1000;
         collect( d);
         return true;
      };

      auto writable = [&]( int d)
      {
         for( auto& remote : multiplex.destinations())
            if( remote == ipc_id( d))
            {
               bool found = false;
               for( auto fd : directive.write.descriptors()) if( fd == remote.descriptor()) found = true;
               vex_assert( found, "a destination with pending messages is waited for");
               auto fd = remote.descriptor();
               vex_assert( multiplex( fd, communication::select::tag::write{}), "the multiplexer knows its destination");
               return true;
            }
         return false;
      };

      for( unsigned step = 0; step < steps; ++step)
      {
         switch( vex_choose( 5, "event"))
         {
            case 0: // send
            {
               if( sent == messages) vex_discard();
               ++sent;
               int d = sent == 1 ? 0 : vex_choose( 2, "destination"); // they are alike
               auto id = correlation( originals.size());
               bool multiplexed = ! blocking || vex_choose( 2, "sender") == 0;
               // more of the same conversation
               if( sent == 2 && ! blocking && originals[ 0].destination == d && vex_choose( 2, "same correlation")) { id = originals[ 0].correlation; vex_cover( "same correlation");}
               auto message = make( size_of( vex_choose( sizes, "size")), sent % 2 ? message::Type::service_call : message::Type::domain_discovery_topology_direct_update, id, d);
               if( multiplexed)
               {
                  order[ d].push_back( id);
                  multiplex.send( ipc_id( d), std::move( message), failed);
                  if( multiplex.pending()) vex_cover( "a destination is full");
               }
               else
               {
                  originals.back().multiplexed = false;
                  bool dead = mailboxes[ d].gone;
                  try { communication::device::blocking::send( ipc_id( d), std::move( message)); vex_assert( ! dead, "sending to who is gone is an error");}
                  catch( ...) { vex_assert( dead, "sending is an error only if the destination is gone"); find( id)->failed = 1;}
               }
               break;
            }
            case 1: // reads
               if( ! reads( vex_choose( 2, "reader"))) vex_discard();
               break;
            case 2: // ends
            {
               int d = vex_choose( 2, "who");
               if( mailboxes[ d].gone) vex_discard();
               mailboxes[ d].gone = vex_choose( 2, "error") ? ENOENT : ECONNREFUSED;
               mailboxes[ d].datagrams.clear();
               break;
            }
            case 3: // writable: the kernel says so when there is space or the destination is gone; to try at other times does no harm
               if( ! writable( vex_choose( 2, "writable"))) vex_discard();
               break;
            case 4:
               if( vex_choose( 2, "all"))
               {
                  if( multiplex.empty()) vex_discard();
                  multiplex.send();
               }
               else
               {
                  // the manager is told that it is gone
                  int d = vex_choose( 2, "lost");
                  if( ! mailboxes[ d].gone) vex_discard();
                  bool pending = false;
                  for( auto& remote : multiplex.destinations()) if( remote == ipc_id( d)) pending = true;
                  if( ! pending) vex_discard();
                  multiplex.failed( ipc_id( d));
                  vex_cover( "told that a destination is gone");
               }
               break;
         }
      }

      // everybody continues until there is nothing left to do
      for( int n = 0; n < 40; ++n)
      {
         bool progress = reads( 0);
         if( reads( 1)) progress = true;
         if( writable( 0)) progress = true;
         if( writable( 1)) progress = true;
         if( ! progress) break;
         vex_assert( n < 39, "all that is pending is sent");
      }
      vex_assert( multiplex.empty() && multiplex.pending() == 0, "nothing is left pending");
      vex_assert( directive.write.descriptors().empty(), "nothing is waited for");
      for( auto& o : originals)
      {
         if( ! mailboxes[ o.destination].gone) vex_assert( o.received == 1 && o.failed == 0, "a message to who is there arrives");
         else
         {
            vex_assert( o.received + o.failed <= 1, "received or failed, not both");
            vex_assert( o.enqueued || o.failed, "who sends is told about each message that is not sent");
         }
      }
      if( failures) vex_cover( "failed");
      vex_observe( "originals", originals.size());
   }

   // what a process gets out of its inbound device: types and correlations are arbitrary ones out of two
   message::Type some_type( const char* name) { return vex_range( 0, 1, name) ? message::Type::service_call : message::Type::service_reply;}
   strong::correlation::id some_correlation( unsigned char& value, const char* name)
   {
      value = vex_range( 0, 1, name);
      Uuid::uuid_type raw{};
      raw[ 0] = 0xc0; raw[ 15] = value;
      return strong::correlation::id{ Uuid{ raw}};
   }

   void selection( unsigned messages, unsigned steps)
   {
      Device device;
      mailboxes[ 0].capacity = 1000;
      struct Expected { message::Type type; unsigned char id; std::size_t index; bool discarded = false, taken = false, complete = false;};
      std::vector< Expected> expected;
      std::vector< std::vector< std::vector< char>>> chunks;
      for( std::size_t n = 0; n < messages; ++n)
      {
         unsigned char id;
         auto type = some_type( "type");
         auto correlation = some_correlation( id, "correlation");
         auto complete = make( n == 0 ? datagram + 3 : 16 + n, type, correlation, 0);
         expected.push_back( { type, id, originals.size() - 1});
         communication::device::blocking::send( ipc_id( 0), std::move( complete));
         auto& q = mailboxes[ 0].datagrams;
         chunks.emplace_back( q.begin(), q.end());
         q.clear();
      }
      std::size_t next[ 3] = {};
      auto alike = [&]( std::size_t a, std::size_t b) { return ( expected[ a].type == expected[ b].type) & ( expected[ a].id == expected[ b].id);};
      auto arrive = [&]()
      {
         auto n = vex_choose( messages, "arrives");
         if( next[ n] == chunks[ n].size()) vex_discard();
         // messages of the same type and correlation (a conversation) are from the same sender: one after the other
         for( std::size_t m = 0; m < n; ++m) if( next[ m] < chunks[ m].size()) vex_assume( ! alike( m, n));
         mailboxes[ 0].datagrams.push_back( chunks[ n][ next[ n]++]);
         if( next[ n] == chunks[ n].size()) expected[ n].complete = true;
      };
      auto taken = [&]( const Complete& complete, auto&& wanted)
      {
         // which one it is: by its size
         bool known = false;
         for( auto& e : expected) if( originals[ e.index].payload.size() == complete.payload.size()) known = true;
         vex_assert( known, "what is given has arrived");
         for( auto& e : expected)
            if( originals[ e.index].payload.size() == complete.payload.size())
            {
               vex_assert( complete.type() == e.type && complete.correlation() == originals[ e.index].correlation, "given with its type and correlation");
               vex_assert( ! e.taken, "a message is given once");
               vex_assert( e.complete, "a message is given when it is complete");
               vex_assert( wanted( e), "what is given is what was asked for");
               vex_assert( ! e.discarded, "what is discarded is not given");
               std::size_t n = &e - expected.data();
               for( std::size_t m = 0; m < n; ++m)
                  if( ! expected[ m].taken && ! expected[ m].discarded) vex_assert( ! alike( m, n), "messages of the same type and correlation are given in order");
               vex_assert( same( originals[ e.index].payload, complete.payload), "given as it was sent");
               e.taken = true;
               vex_cover( "given");
               return;
            }
      };
      auto receive = [&]( auto&& wanted, auto&& how)
      {
         Complete complete = how();
         if( complete) { taken( complete, wanted); return;}
         for( auto& e : expected)
            vex_assert( ! ( ( e.complete && ! e.taken && ! e.discarded) & wanted( e)), "a message that is there is given to who asks for it");
         vex_cover( "nothing to give");
      };
      ipc::policy::non::Blocking policy;
      int discards = 0;

      for( unsigned step = 0; step < steps; ++step)
      {
         switch( vex_choose( 4, "event"))
         {
            case 0:
               arrive();
               break;
            case 1:
            {
               unsigned char id = 0;
               switch( vex_choose( 6, "receive"))
               {
                  case 0: receive( []( auto&) { return true;}, [&]() { return device.next( policy);}); break;
                  case 1: 
                  {
                     auto type = some_type( "of type");
                     receive( [&]( auto& e) { return e.type == type;}, [&]() { return device.next( type, policy);}); break;
                  }
                  case 2: 
                  {
                     auto correlation = some_correlation( id, "of correlation");
                     receive( [&]( auto& e) { return e.id == id;}, [&]() { return device.next( correlation, policy);}); break;
                  }
                  case 3:
                  {
                     auto type = some_type( "of type");
                     auto correlation = some_correlation( id, "of correlation");
                     receive( [&]( auto& e) { return ( e.id == id) & ( e.type == type);}, [&]() { return device.next( type, correlation, policy);}); break;
                  }
                  case 4: 
                  {
                     auto type = some_type( "of type");
                     std::vector< message::Type> types{ message::Type::event_process_exit, type};
                     receive( [&]( auto& e) { return e.type == type;}, [&]() { return device.next( types, policy);}); break;
                  }
                  case 5: 
                  {
                     auto type = some_type( "of type");
                     auto correlation = some_correlation( id, "of correlation");
                     std::vector< message::Type> types{ type, message::Type::event_process_exit};
                     receive( [&]( auto& e) { return ( e.id == id) & ( e.type == type);}, [&]() { return device.next( types, correlation, policy);}); break;
                  }
               }
               break;
            }
            case 2: // what is in the cache, without a look at what arrives
            {
               while( ! mailboxes[ 0].datagrams.empty())
                  (void)device.select( []( auto&) { return false;}, policy);
               auto type = some_type( "cached");
               std::vector< message::Type> types{ type};
               receive( [&]( auto& e) { return e.type == type;}, [&]() { return device.cached( types);});
               break;
            }
            case 3:
            {
               // discard of what is not received yet: the caller gives up
               if( discards++) vex_discard();
               unsigned char id;
               auto correlation = some_correlation( id, "discard");
               Expected* target = nullptr;
               int matching = 0;
               for( auto& e : expected) if( e.id == id) { ++matching; target = &e;}
               // one message with the correlation: which one is meant is no question
               if( matching != 1 || target->taken) vex_discard();
               device.discard( correlation);
               target->discarded = true;
               vex_cover( "discarded");
               break;
            }
         }
      }
      for( std::size_t n = 0; n < messages; ++n)
         for( ; next[ n] < chunks[ n].size(); ++next[ n])
         {
            mailboxes[ 0].datagrams.push_back( chunks[ n][ next[ n]]);
            expected[ n].complete = true;
         }
      while( auto complete = device.next( policy)) taken( complete, []( auto&) { return true;});
      for( auto& e : expected) vex_assert( e.taken || e.discarded, "every message is given in the end");
      vex_assert( device.incomplete() == 0 && device.size() == 0, "nothing is left");
   }
}

VEX_ENTRY( delivery) { delivery( 5, 3, 1, 3, false);}
VEX_ENTRY( blocking) { delivery( 4, 3, 1, 3, true);}
VEX_ENTRY( selection) { selection( 2, 4);}
VEX_ENTRY_THOROUGH( deeper) { delivery( 5, 3, 1, 3, true);}
VEX_ENTRY_THOROUGH( selection_deeper) { selection( 3, 4);}
