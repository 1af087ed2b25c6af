// messages between domains: whatever pieces the network makes of the stream, the messages are what was sent, in order
#include "prelude.h"
#include "gateway/group/tcp.h"
#include "common/communication/tcp.h"
#include "common/communication/select.h"
#include "common/code/raise.h"
#include "common/code/casual.h"
#include "common/exception/capture.h"

#include <cerrno>

//@ bounds send: up to 2 (thorough: 3) messages of 16 to 18 bytes, arbitrary type, correlation (not nil) and content; every history of 4 (thorough: 5) events: a message is sent, or the socket is writable; each time the socket takes any number of bytes, or none, at most 2 times fewer than offered; receive: a stream of 2 (thorough: 3) such messages that arrives in any pieces, at most 2 of them cut short; untrusted: any header, with a size that is negative or at most 8, and what follows
//@ outside signals that interrupt, a peer that announces a size the memory is not enough for, TLS or not
//@ stubs sendmsg, recv, fcntl: a stream of the harness

using namespace casual::common;
namespace tcp = casual::common::communication::tcp;
using Complete = tcp::message::Complete;
using Connection = casual::gateway::group::tcp::Connection;

namespace
{
   std::vector< unsigned char> wire;      // what has been sent
   std::vector< unsigned char> incoming;  // what is to be received
   std::size_t consumed = 0;
   bool closed = false;
   int cuts = 0;
   bool truncate_at_end = false;

   // how much of what could be done is done
   std::size_t some( std::size_t most, std::size_t least)
   {
      if( cuts == 0 || ! vex_choose( 2, "short")) return most;
      --cuts;
      if( most <= least) return most;
      return vex_concretize( vex_range( least, most - 1, "bytes"));
   }

   struct Message
   {
      message::Type type{};
      strong::correlation::id correlation;
      unsigned char raw[ 16];
      casual::platform::binary::type payload;
   };
   std::vector< Message> messages;

   Message make()
   {
      Message m;
      auto type = vex_range( 1, 0x7fffffff, "type");
      m.type = static_cast< message::Type>( type);
      vex_bytes( m.raw, 16, "correlation");
      vex_assume( m.raw[ 0] != 0); // a message has a correlation
      Uuid::uuid_type raw;
      memcpy( &raw, m.raw, 16);
      m.correlation = strong::correlation::id{ Uuid{ raw}};
      m.payload.resize( 16 + messages.size());
      vex_bytes( m.payload.data(), m.payload.size(), "payload");
      return m;
   }

   void put( std::vector< unsigned char>& out, uint64_t value) { for( int n = 7; n >= 0; --n) out.push_back( value >> ( n * 8));}

   // the frame of a message, as the protocol has it
   void frame( std::vector< unsigned char>& out, const Message& m)
   {
      put( out, static_cast< uint64_t>( std::to_underlying( m.type)));
      for( auto b : m.raw) out.push_back( b);
      put( out, m.payload.size());
      for( auto b : m.payload) out.push_back( static_cast< unsigned char>( b));
   }

   bool same( const Complete& complete, const Message& m)
   {
      return complete.type() == m.type && complete.correlation() == m.correlation 
         && complete.payload.size() == m.payload.size() && memcmp( complete.payload.data(), m.payload.data(), m.payload.size()) == 0;
   }
}

extern "C"
{
   __attribute__(( used)) ssize_t __weak_sendmsg( int, const msghdr* message, int)
   {
      std::size_t total = 0;
      for( std::size_t n = 0; n < message->msg_iovlen; ++n) total += message->msg_iov[ n].iov_len;
      auto count = some( total, 0);
      if( count == 0) { errno = EAGAIN; return -1;}
      auto left = count;
      for( std::size_t n = 0; n < message->msg_iovlen && left; ++n)
      {
         auto part = std::min( left, message->msg_iov[ n].iov_len);
         auto data = static_cast< const unsigned char*>( message->msg_iov[ n].iov_base);
         wire.insert( wire.end(), data, data + part);
         left -= part;
      }
      return count;
   }
   __attribute__(( used)) ssize_t __weak_recv( int, void* data, size_t size, int)
   {
      auto left = incoming.size() - consumed;
      if( left == 0)
      {
         if( closed || size == 0) return 0;
         errno = EAGAIN;
         return -1;
      }
      if( size == 0) return 0;
      auto count = some( std::min( left, size), 0);
      if( count == 0) { errno = EAGAIN; return -1;}
      memcpy( data, incoming.data() + consumed, count);
      consumed += count;
      return count;
   }
   __attribute__(( used)) int __weak_fcntl( int, int, ...) { return 0;}
}

namespace
{
   communication::Socket socket() { return communication::Socket{ strong::socket::id{ 7}};}

   bool waits( const communication::select::Directive& directive)
   {
      for( auto fd : directive.write.descriptors()) if( fd.value() == 7) return true;
      return false;
   }

   void send( unsigned count, unsigned steps, int pieces)
   {
      cuts = pieces;
      communication::select::Directive directive;
      Connection connection{ socket(), casual::gateway::message::protocol::Version::current};
      std::vector< unsigned char> expected;
      for( unsigned step = 0; step < steps; ++step)
      {
         if( messages.size() < count && vex_choose( 2, "event") == 0)
         {
            auto m = make();
            frame( expected, m);
            auto payload = m.payload;
            auto correlation = connection.send( directive, Complete{ m.type, m.correlation, std::move( payload)});
            vex_assert( correlation == m.correlation, "the correlation of the message");
            messages.push_back( std::move( m));
         }
         else
         {
            if( ! waits( directive)) vex_discard();
            connection.unsent( directive);
            vex_cover( "the rest");
         }
         vex_assert( waits( directive) == ( wire.size() < expected.size()), "waits for the socket while there is more to send");
      }
      cuts = 0;
      if( waits( directive)) connection.unsent( directive);
      vex_assert( ! waits( directive), "all is sent when the socket takes it");
      vex_assert( wire.size() == expected.size() && memcmp( wire.data(), expected.data(), wire.size()) == 0, "the stream is the messages, in order");
      if( messages.size() == count) vex_cover( "all messages");
   }

   void receive( unsigned count, int pieces)
   {
      cuts = pieces;
      for( unsigned n = 0; n < count; ++n)
      {
         auto m = make();
         frame( incoming, m);
         messages.push_back( std::move( m));
      }
      // the peer may go away at any point of the last message
      auto whole = incoming.size();
      closed = vex_choose( 2, "closed");
      if( closed && vex_choose( 2, "truncated"))
      {
         incoming.resize( whole - vex_concretize( vex_range( 1, 47, "lost")));
         --count;
         truncate_at_end = true;
      }
      Connection connection{ socket(), casual::gateway::message::protocol::Version::current};
      unsigned received = 0;
      bool lost = false;
      for( unsigned tries = 0; tries < messages.size() * 2 + pieces + 3 && ! lost; ++tries)
      {
         try
         {
            auto complete = connection.next();
            if( ! complete) continue;
            vex_assert( received < count, "as many messages as were sent");
            vex_assert( same( complete, messages[ received]), "the message that was sent, in order");
            ++received;
         }
         catch( ...)
         {
            lost = true;
            vex_assert( closed && consumed == incoming.size(), "the connection is lost when the peer has gone, not before");
            vex_cover( "lost");
         }
      }
      vex_assert( received == count, "every message that arrived is received");
      vex_assert( lost == closed, "told that the peer has gone");
      if( cuts == 0) vex_cover( "cut");
   }

   // a peer can send anything
   void untrusted()
   {
      cuts = 1;
      incoming.resize( 32 + 12);
      vex_bytes( incoming.data(), incoming.size(), "bytes");
      int64_t size = 0;
      for( int n = 0; n < 8; ++n) size = ( size << 8) | incoming[ 24 + n];
      vex_assume( size <= 8);
      Connection connection{ socket(), casual::gateway::message::protocol::Version::current};
      for( int n = 0; n < 4; ++n)
      {
         try
         {
            auto complete = connection.next();
            if( ! complete) continue;
            vex_assert( size >= 0 && complete.payload.size() == static_cast< std::size_t>( size), "a message has the announced size");
            vex_assert( memcmp( complete.payload.data(), incoming.data() + 32, complete.payload.size()) == 0, "a message has the bytes that follow");
            (void)complete.execution();
            vex_cover( "a message");
            return;
         }
         catch( ...)
         {
            vex_cover( "a lost connection");
            return;
         }
      }
   }
}

VEX_ENTRY( send) { send( 2, 4, 2);}
VEX_ENTRY( receive) { receive( 2, 2);}
VEX_ENTRY( untrusted) { untrusted();}
VEX_ENTRY_THOROUGH( send_deeper) { send( 3, 5, 2);}
VEX_ENTRY_THOROUGH( receive_deeper) { receive( 3, 2);}
