From 0e2074229b89b0977a46fc8745a78e06126c6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:13 +0000
Subject: [PATCH 01/30] fix: order buffer reads values outside the buffer when
 it holds less than what is asked for

---
 middleware/buffer/source/order.cpp | 58 +++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/middleware/buffer/source/order.cpp b/middleware/buffer/source/order.cpp
index 6d76583..2805e8b 100644
--- a/middleware/buffer/source/order.cpp
+++ b/middleware/buffer/source/order.cpp
@@ -18,8 +18,11 @@
 
 #include "common/code/xatmi.h"
 
+#include <algorithm>
 #include <utility>
 #include <memory>
+#include <optional>
+#include <span>
 
 namespace casual
 {
@@ -290,26 +293,46 @@ namespace casual
                   return CASUAL_ORDER_SUCCESS;
                }
 
+               using source_type = std::span< const std::byte>;
+
+               //! all `select` returns how much was read from `source`, or `nullopt` if `source` does not hold the value
                template<typename T>
-               size_type select( const_data_type where, T& value) noexcept
+               std::optional< size_type> select( source_type source, T& value) noexcept
                {
-                  //value = common::network::byteorder::decode< T>( *std::start_lifetime_as< common::network::byteorder::type< T>>( where));
-                  value = common::network::byteorder::decode< T>( *reinterpret_cast< const common::network::byteorder::type< T>*>( where));
-                  return common::network::byteorder::bytes< T>();
+                  const auto size = common::network::byteorder::bytes< T>();
+
+                  if( std::ssize( source) < static_cast< size_type>( size))
+                     return std::nullopt;
+
+                  //value = common::network::byteorder::decode< T>( *std::start_lifetime_as< common::network::byteorder::type< T>>( source.data()));
+                  value = common::network::byteorder::decode< T>( *reinterpret_cast< const common::network::byteorder::type< T>*>( source.data()));
+                  return size;
                }
 
-               size_type select( const_data_type where, const char*& value) noexcept
+               std::optional< size_type> select( source_type source, const char*& value) noexcept
                {
-                  value = reinterpret_cast< const char*>( where);
-                  return std::strlen( value) + 1;
+                  const auto end = std::find( std::begin( source), std::end( source), std::byte{ '\0'});
+
+                  if( end == std::end( source))
+                     return std::nullopt;
+
+                  value = reinterpret_cast< const char*>( source.data());
+                  return std::distance( std::begin( source), end) + 1;
                }
 
-               size_type select( const_data_type where, const char*& data, size_type& size) noexcept
+               std::optional< size_type> select( source_type source, const char*& data, size_type& size) noexcept
                {
+                  size_type chunk{};
+
                   // select first size chunk
-                  const auto read = select( where, size);
-                  data = reinterpret_cast< const char*>( where + read);
-                  return read + size;
+                  const auto read = select( source, chunk);
+
+                  if( ! read || chunk < 0 || chunk > std::ssize( source) - *read)
+                     return std::nullopt;
+
+                  size = chunk;
+                  data = reinterpret_cast< const char*>( source.data() + *read);
+                  return *read + chunk;
                }
 
                template<typename... A>
@@ -322,20 +345,21 @@ namespace casual
                      // See how much have been read so far
                      const auto read = buffer.consumed();
 
-                     // Read the data and let us not how much
-                     const auto size = select( buffer.handle().underlying() + read, std::forward<A>( arguments)...);
+                     // the buffer could have been reset to less than what we've consumed.
+                     if( read > buffer.utilized())
+                        return CASUAL_ORDER_OUT_OF_BOUNDS;
 
-                     // Calculate the new cursor
-                     const auto consumed = read + size;
+                     // Read the data, if there is enough of it, and let us know how much
+                     const auto size = select( source_type{ buffer.payload.data}.subspan( read), std::forward<A>( arguments)...);
 
-                     if( consumed > buffer.utilized())
+                     if( ! size)
                      {
                         // We need to report this
                         return CASUAL_ORDER_OUT_OF_BOUNDS;
                      }
 
                      // Update the cursor
-                     buffer.consumed( consumed);
+                     buffer.consumed( read + *size);
                   }
                   catch( ...)
                   {
-- 
2.43.0


From 7f9ed77bdf5c6658030499bd5fcbd87b0fbd7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 02/30] fix: field and string buffers read outside of a payload
 that is not what they expect

---
 middleware/buffer/source/field.cpp  | 21 ++++++++++++++++++---
 middleware/buffer/source/string.cpp | 14 +++++++-------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/middleware/buffer/source/field.cpp b/middleware/buffer/source/field.cpp
index 8bba3bc..cb54008 100644
--- a/middleware/buffer/source/field.cpp
+++ b/middleware/buffer/source/field.cpp
@@ -82,16 +82,21 @@ namespace casual
 
                   while( cursor < end)
                   {
+                     // the payload could be anything, there has to be room for the header...
+                     if( std::distance( cursor, end) < data_offset)
+                        throw std::invalid_argument{ "buffer is invalid"};
+
                      const auto item = local::decode< item_type>( &*cursor + item_offset);
                      const auto size = local::decode< size_type>( &*cursor + size_offset);
 
+                     // ...and for the data
+                     if( size < 0 || size > std::distance( cursor, end) - data_offset)
+                        throw std::invalid_argument{ "buffer is invalid"};
+
                      index[ item].push_back( std::distance( begin, cursor));
 
                      std::advance( cursor, data_offset + size);
                   }
-
-                  if( cursor > end)
-                     throw std::invalid_argument{ "buffer is invalid"};
                }
 
                Buffer( Buffer&&) noexcept = default;
@@ -327,6 +332,12 @@ namespace casual
             {
                const auto where = buffer.handle().value() + offset( buffer.index, id, occurrence);
 
+               const auto size = local::decode< size_type>( where + size_offset);
+
+               // the payload could originate from elsewhere, make sure it is null terminated
+               if( ! std::memchr( where + data_offset, '\0', size))
+                  throw std::out_of_range{ "value is not null terminated"};
+
                value = reinterpret_cast< const char*>( where + data_offset);
             }
 
@@ -335,6 +346,10 @@ namespace casual
             {
                const auto where = buffer.handle().value() + offset( buffer.index, id, occurrence);
 
+               // the payload could originate from elsewhere, make sure there is a whole value
+               if( local::decode< size_type>( where + size_offset) < common::network::byteorder::bytes< T>())
+                  throw std::out_of_range{ "value is smaller than its type"};
+
                value = local::decode< T>( where + data_offset);
             }
 
diff --git a/middleware/buffer/source/string.cpp b/middleware/buffer/source/string.cpp
index a6e7bd3..22f5083 100644
--- a/middleware/buffer/source/string.cpp
+++ b/middleware/buffer/source/string.cpp
@@ -18,6 +18,7 @@
 #include "common/code/xatmi.h"
 
 
+#include <algorithm>
 #include <cstring>
 
 namespace casual
@@ -37,15 +38,17 @@ namespace casual
                auto validate( const common::buffer::Payload& payload)
                {
                   auto string_like = common::binary::span::to_string_like( payload.data);
-                  const auto size = std::size( string_like);
-                  const auto used = std::strlen( string_like.data()) + 1;
 
                   // We do need to check that it is a real null-terminated
                   // string within allocated area
 
-                  if( used > size)
+                  const auto end = std::find( std::begin( string_like), std::end( string_like), '\0');
+
+                  if( end == std::end( string_like))
                      throw std::invalid_argument{"string is longer than allocated size"};
 
+                  const platform::binary::size::type used = std::distance( std::begin( string_like), end) + 1;
+
                   return used;
                }
             } // local
@@ -194,10 +197,7 @@ namespace casual
 
                   value = reinterpret_cast< const char*>( buffer.handle().underlying());
 
-                  const auto count = std::strlen( value) + 1;
-                  const auto space = buffer.payload.data.size();
-
-                  if( count > space)
+                  if( ! common::algorithm::find( buffer.payload.data, std::byte{ '\0'}))
                   {
                      // We need to report this
                      return CASUAL_STRING_OUT_OF_BOUNDS;
-- 
2.43.0


From 47ce9ce167598311ba6a84ff0b40bde1254125b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 03/30] fix: transaction manager rolls back transactions that
 are already being coordinated when their owner exits

The outcome of a transaction past the involved stage is being decided (or an
upstream TM decides it): rolling it back as well sends rollback requests to
resources that have been, or are to be, committed.
---
 middleware/transaction/source/manager/handle.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..c57dbeb 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -1153,6 +1153,11 @@ namespace casual
 
                      auto trids = common::algorithm::accumulate( state.transactions, std::vector< common::transaction::ID>{}, [ pid = message.state.pid]( auto result, auto& transaction)
                      {
+                        // if the transaction is passed _involved_ the outcome is already being coordinated (or we've 
+                        // promised an upstream TM to follow its decision), and we must not interfere with that.
+                        if( transaction.stage != state::transaction::Stage::involved)
+                           return result;
+
                         if( ! transaction.branches.empty() && transaction.branches.back().trid.owner().pid == pid)
                            result.push_back( transaction.branches.back().trid);
 
-- 
2.43.0


From 777fab1535859263ee5a961cb71a6ecc1cc9c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 04/30] fix: service manager loses instances and pending
 lookups when a reservation is discarded

---
 middleware/service/source/manager/handle.cpp | 85 +++++++++++++-------
 1 file changed, 58 insertions(+), 27 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..ab5e758 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -483,11 +483,17 @@ namespace casual
                            }
                         }
 
-                        // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        // send reply, if caller gone, we discard the reservation. We're "inside" a send, hence we
+                        // let the regular discard take care of it.
+                        state.multiplex.send( message.process.ipc, reply, []( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           if constexpr( ! is_concurrent)
+                           {
+                              common::message::service::lookup::discard::Request discard;
+                              discard.correlation = complete.correlation();
+                              discard.reply = false;
+                              ipc::device().push( std::move( discard));
+                           }
                         });
                      }
 
@@ -656,6 +662,36 @@ namespace casual
                   };
                }
 
+               namespace detail
+               {
+                  //! The instance has been marked as idle, check if there are pending lookups for 
+                  //! services that the instance has.
+                  void idle( State& state, state::instance::sequential::id::type instance_id)
+                  {
+                     Trace trace{ "service::manager::handle::local::service::detail::idle"};
+
+                     auto& instance = state.instances.sequential[ instance_id];
+                     log::line( verbose::log, "instance: ", instance);
+
+                     auto has_pending = [ &state, instance]( const auto& pending)
+                     {
+                        return instance.service( state.services.lookup( pending.request.requested));
+                     };
+
+                     if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
+                     {
+                        log::line( verbose::log, "found pending: ", *found);
+
+                        auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+
+                        // We now know that there are one idle server that has advertised the
+                        // requested service (we've just marked it as idle...).
+                        // We can use the normal request to get the response
+                        detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                     }
+                  }
+               } // detail
+
                namespace discard
                {
                   auto lookup( State& state)
@@ -680,16 +716,32 @@ namespace casual
                            log::line( log, "failed to find pending to discard - check if we have reserved the service already");
 
                            // we need to go through all sequential instances.
+                           state::instance::sequential::id::type reserved;
 
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
+                           state.instances.sequential.for_each( [ &reserved, correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
                            {
                               if( ! instance.idle() && instance.caller().correlation == correlation)
                               {
                                  log::line( verbose::log, "found reserved instance: ", instance);
                                  instance.discard();
+                                 reserved = id;
                               }
                            });
 
+                           // there will be no ack for the reservation, we need to do what the ack would have done.
+                           if( reserved)
+                           {
+                              if( algorithm::find( state.disabled, reserved))
+                              {
+                                 common::message::service::call::ACK ack;
+                                 ack.correlation = message.correlation;
+                                 ack.metric.process = state.instances.sequential[ reserved].process;
+                                 state.pending.shutdown( ack);
+                              }
+                              else
+                                 detail::idle( state, reserved);
+                           }
+
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
                         }
@@ -1045,30 +1097,9 @@ namespace casual
                      return;
                   }
 
-                  auto& instance = state.instances.sequential[ instance_id];
-
-                  log::line( verbose::log, "instance: ", instance);
-
                   // Check if there are pending request for services that this
                   // instance has.
-
-                  auto has_pending = [ &state, instance]( const auto& pending)
-                  {
-                     return instance.service( state.services.lookup( pending.request.requested));
-                  };
-
-                  if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
-                  {
-                     log::line( verbose::log, "found pending: ", *found);
-
-                     auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
-
-                     // We now know that there are one idle server that has advertised the
-                     // requested service (we've just marked it as idle...).
-                     // We can use the normal request to get the response
-                     service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
-                  }
- 
+                  service::detail::idle( state, instance_id);
                };
             }
 
-- 
2.43.0


From 22297020db5156010afa1facbe24c9da64909f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:24 +0000
Subject: [PATCH 05/30] fix: service manager leaves lookups pending when the
 last instance stops advertising the service

---
 middleware/service/source/manager/handle.cpp | 34 ++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index ab5e758..10e4471 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -234,6 +234,12 @@ namespace casual
                   
             } // service::detail::handle
 
+            namespace service::detail
+            {
+               // defined after lookup, below
+               void unavailable( State& state);
+            } // service::detail
+
             namespace event
             { 
                namespace process
@@ -322,8 +328,14 @@ namespace casual
                      Trace trace{ "service::manager::handle::service::advertise"};
                      log::line( verbose::log, "message: ", message);
 
+                     const bool removes = message.clear() || ! message.services.remove.empty();
+
                      // some pending might got resolved, from the update
                      detail::handle::pending( state, state.update( std::move( message)));
+
+                     // other pending might have lost what they're waiting for
+                     if( removes)
+                        detail::unavailable( state);
                   };
                }
 
@@ -336,8 +348,14 @@ namespace casual
                         Trace trace{ "service::manager::handle::service::concurrent::advertise"};
                         common::log::line( verbose::log, "message: ", message);
 
+                        const bool removes = message.directive == decltype( message.directive)::reset || ! message.services.remove.empty();
+
                         // some pending might got resolved.
                         detail::handle::pending( state, state.update( std::move( message)));
+
+                        // other pending might have lost what they're waiting for
+                        if( removes)
+                           detail::unavailable( state);
                      };
                   }
 
@@ -690,6 +708,22 @@ namespace casual
                         detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
                      }
                   }
+
+                  //! Some services might have lost their last instance. Lookups that are pending for these 
+                  //! have nothing to wait for, we "invalidate and re-lookup".
+                  void unavailable( State& state)
+                  {
+                     Trace trace{ "service::manager::handle::local::service::detail::unavailable"};
+
+                     auto has_instances = [ &state]( const auto& pending)
+                     {
+                        auto service_id = state.services.lookup( pending.request.requested);
+                        return service_id && state.services[ service_id].has_instances();
+                     };
+
+                     auto [ keep, absent] = algorithm::stable::partition( state.pending.lookups, has_instances);
+                     handle::pending( state, algorithm::container::extract( state.pending.lookups, absent));
+                  }
                } // detail
 
                namespace discard
-- 
2.43.0


From 22d0a25ded8d144ea47409b05d348ba189df7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 06/30] fix: service manager does not set the timer for the
 deadline of a pending lookup

---
 middleware/service/source/manager/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 10e4471..13c6542 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -546,7 +546,8 @@ namespace casual
 
                               if( auto deadline = detail::calculate_deadline( state.services[ service_id], now, message.deadline))
                                  if( state.services[ service_id].has_sequential())
-                                    state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation});
+                                    if( auto next = state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation}))
+                                       signal::timer::set( next.value() - now);
 
                               state.pending.lookups.emplace_back( std::move( message), now);
 
-- 
2.43.0


From 7abfac1143d70a5baa51c13ad4d6c8e5a57adc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 07/30] fix: service manager loses track of a reservation when
 its call has timed out

---
 middleware/service/include/service/manager/state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..9188264 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -148,10 +148,11 @@ namespace casual
                void remove( service::id::type service);
 
                //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
+               //! @attention the correlation is kept, it correlates the reservation until it's unreserved/discarded.
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
                   if( m_caller == correlation)
-                     return std::exchange( m_caller, {});
+                     return { .process = std::exchange( m_caller.process, {}), .correlation = correlation};
                   return {};
                }
 
-- 
2.43.0


From 98f8e67fa22c6fb1218a2d6747a63484f6decced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 08/30] fix: service manager rolls back the wrong transaction
 after a call without transaction has timed out

---
 middleware/service/source/manager/handle.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 13c6542..f335cd2 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -766,6 +766,9 @@ namespace casual
                            // there will be no ack for the reservation, we need to do what the ack would have done.
                            if( reserved)
                            {
+                              // the call might have timed out, it will not do anything in a transaction now.
+                              algorithm::container::erase( state.timeout_instances, state.instances.sequential[ reserved].process.pid);
+
                               if( algorithm::find( state.disabled, reserved))
                               {
                                  common::message::service::call::ACK ack;
@@ -1071,13 +1074,14 @@ namespace casual
                {
                   log::line( verbose::log, "state.timeout_instances: ", state.timeout_instances);
 
-                  if( ! ack.metric.trid)
-                     return;
-                  
                   if( auto found = algorithm::find( state.timeout_instances, ack.metric.process.pid))
                   {
+                     // the call that timed out is done, regardless if it was in transaction or not.
                      state.timeout_instances.erase( std::begin( found));
 
+                     if( ! ack.metric.trid)
+                        return;
+
                      // Rollback the transaction (again). If TM got instances involved a rollback will be executed, 
                      // otherwise it will be a "no-op".
                      // TODO: we might want to have a dedicated message for this. SM should not order a rollback?
-- 
2.43.0


From c224d5f8eafeee9ded3df0e594e0be258a519fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 09/30] fix: service manager reserves instances that are about
 to be killed

---
 middleware/service/source/manager/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..b64c69f 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -594,7 +594,8 @@ namespace casual
 
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            // disabled instances are about to exit, or get killed
+            return instances.sequential[ instance_id].idle() && ! algorithm::contains( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
-- 
2.43.0


From 1f0f23ae1a2cbd139d90fbc117c7dd418fa6ccec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 10/30] fix: callbacks of the ipc send coordinator can send
 messages

When a destination with pending messages was lost, the callbacks were
invoked while the coordinator held on to the destination in the
container. A callback that sends a message (as service-forward does)
can add a destination, and the container is reallocated: use after free.
---
 .../include/common/communication/ipc/send.h   | 10 +++++++-
 .../common/source/communication/ipc/send.cpp  | 25 ++++++++++++-------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/middleware/common/include/common/communication/ipc/send.h b/middleware/common/include/common/communication/ipc/send.h
index c21b2ab..67d2bdb 100644
--- a/middleware/common/include/common/communication/ipc/send.h
+++ b/middleware/common/include/common/communication/ipc/send.h
@@ -68,6 +68,9 @@ namespace casual
 
             strong::file::descriptor::id descriptor() const noexcept { return m_destination.socket().descriptor();}
 
+            //! tries to send all pending messages
+            //! @returns true if there is nothing more to do for this remote, either all messages are sent, or the
+            //!    remote is _lost_ and the messages left are to be `failed`
             bool send( select::Directive& directive) noexcept;
 
             inline Remote& push( Message&& message)
@@ -76,6 +79,7 @@ namespace casual
                return *this;
             }
 
+            //! removes the remote from `directive` and invoke callback (if any) for all messages that is not sent
             void failed( select::Directive& directive);
 
             inline platform::size::type size() const noexcept { return m_queue.size();}
@@ -181,6 +185,10 @@ namespace casual
 
          strong::correlation::id send( const strong::ipc::id& ipc, coordinator::Message&& message);
 
+         //! extracts the remote before (possible) callbacks are invoked, since callbacks might use
+         //! this coordinator to send other messages.
+         void done( std::vector< coordinator::Remote>::iterator where);
+
          //! Take care of devices that can "connect"
          template< typename D>
          auto send_dispatch( D& device, coordinator::Message&& message, traits::priority::tag< 1>) 
@@ -202,7 +210,7 @@ namespace casual
             if( auto found = algorithm::find( m_destinations, device.connector().process().ipc))
             {
                if( found->push( std::move( message)).send( *m_directive))
-                  m_destinations.erase( std::begin( found));
+                  done( std::begin( found));
 
                return result;
             }
diff --git a/middleware/common/source/communication/ipc/send.cpp b/middleware/common/source/communication/ipc/send.cpp
index 4c62f28..9a63f46 100644
--- a/middleware/common/source/communication/ipc/send.cpp
+++ b/middleware/common/source/communication/ipc/send.cpp
@@ -55,17 +55,16 @@ namespace casual
             catch( ...)
             {
                log::line( log, exception::capture(), " failed to send to destination: ", m_destination, " - action: invoke callback (if any) and discard for all pending messages to the destination");
-               failed( directive);
                return true;
             }
          }
 
          void Remote::failed( select::Directive& directive)
          {
+            directive.write.remove( descriptor());
+
             for( auto& message : m_queue)
                message.error( m_destination.ipc());
-
-            directive.write.remove( descriptor());
          }
          
       } // coordinator
@@ -79,7 +78,7 @@ namespace casual
          {
             log::line( verbose::log, "found: ", *found);
             if( found->send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               done( std::begin( found));
 
             return true;
          }
@@ -96,8 +95,13 @@ namespace casual
             return ! destination.send( *directive);
          }));
 
+         std::vector< coordinator::Remote> done;
+         algorithm::move( erase, std::back_inserter( done));
          algorithm::container::erase( m_destinations, erase);
 
+         for( auto& destination : done)
+            destination.failed( *m_directive);
+
          return empty();
       }
 
@@ -112,10 +116,13 @@ namespace casual
       void Coordinator::failed( const strong::ipc::id& ipc)
       {
          if( auto found = algorithm::find( m_destinations, ipc))
-         {
-            found->failed( *m_directive);
-            algorithm::container::erase( m_destinations, std::begin( found));
-         }
+            done( std::begin( found));
+      }
+
+      void Coordinator::done( std::vector< coordinator::Remote>::iterator where)
+      {
+         auto remote = algorithm::container::extract( m_destinations, where);
+         remote.failed( *m_directive);
       }
 
       strong::correlation::id Coordinator::send( const strong::ipc::id& ipc, coordinator::Message&& message)
@@ -127,7 +134,7 @@ namespace casual
          if( auto found = algorithm::find( m_destinations, ipc))
          {
             if( found->push( std::move( message)).send( *m_directive))
-               m_destinations.erase( std::begin( found));
+               done( std::begin( found));
          }
          else
          {
-- 
2.43.0


From 1b1b24129269a383ea1a6db0d8041464869a583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 11/30] fix: map the transaction state of a reply to the state
 of the transaction

State of the reply was cast to an enumeration with other values: a timeout became
rollback-only, a rollback became timeout, and error became no known state at all.
---
 middleware/common/source/transaction/context.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..60719b1 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -510,7 +510,20 @@ namespace casual
 
             if( auto found = algorithm::find( m_transactions, reply.correlation))
             {
-               auto state = Transaction::State( reply.transaction_state);
+               auto transform_state = []( auto state)
+               {
+                  switch( state)
+                  {
+                     using Enum = decltype( state);
+                     case Enum::ok: return Transaction::State::active;
+                     case Enum::timeout: return Transaction::State::timeout;
+                     case Enum::rollback: 
+                     case Enum::error: return Transaction::State::rollback;
+                  }
+                  return Transaction::State::rollback;
+               };
+
+               auto state = transform_state( reply.transaction_state);
 
                if( found->state < state)
                   found->state = state;
-- 
2.43.0


From c308fcf2dbe10173be1717617adc1e9aafa5ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 12/30] fix: a transaction with pending replies is not
 committed when the service returns

finalize logs that the transaction is set to rollback only, and tells the caller that it
went wrong, but the transaction was still committed if it was owned.
---
 middleware/common/source/transaction/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 60719b1..388cef2 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -562,6 +562,7 @@ namespace casual
                      log::line( log::category::error, "pending replies associated with transaction - action: discard pending and set transaction state to rollback only");
                      log::line( log::category::transaction, transaction);
 
+                     transaction.state = Transaction::State::rollback;
                      result = message::service::transaction::State::error;
                   }
 
-- 
2.43.0


From 6331b3c4572e1ba3d6618383b79187251ce9b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 13/30] fix: roll back a transaction when a resource fails to
 end its work

tx_commit, tx_rollback and the return of a service consume the transaction. When xa_end
failed for one resource (for instance with a rollback code) nothing more was done, and
the branches of every resource were left as they were, with their locks.
---
 .../include/common/transaction/context.h      |  3 +++
 .../common/source/transaction/context.cpp     | 21 ++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/middleware/common/include/common/transaction/context.h b/middleware/common/include/common/transaction/context.h
index 71243e2..516b7bf 100644
--- a/middleware/common/include/common/transaction/context.h
+++ b/middleware/common/include/common/transaction/context.h
@@ -159,6 +159,9 @@ namespace casual
          [[nodiscard]] code::tx commit( const Transaction& transaction);
          [[nodiscard]] code::tx rollback( const Transaction& transaction);
 
+         //! rolls back a transaction whose resources are ended already
+         [[nodiscard]] code::tx end_rollback( const Transaction& transaction);
+
 
          [[nodiscard]] code::tx resource_commit( strong::resource::id rm, const Transaction& transaction, flag::xa::Flag flags);
          [[nodiscard]] code::tx resource_rollback( strong::resource::id rm, const Transaction& transaction);
diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 388cef2..7071bd1 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -841,7 +841,15 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               log::line( log::category::error, code, " commit - failed to end one or more resources - action: rollback ", transaction.trid);
+
+               // The transaction is consumed regardless, nobody else will take care of the work.
+               if( auto result = end_rollback( transaction); result != code::tx::ok)
+                  return result;
+
+               return code::tx::rollback;
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -933,9 +941,16 @@ namespace casual
             Trace trace{ "transaction::Context::rollback"};
             casual::assertion( transaction, "not a valid transaction: ", transaction);
 
-            // end resources
+            // end resources - regardless if some resource fails to end, the work has to be rolled back
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               log::line( log::category::error, code, " rollback - failed to end one or more resources for transaction: ", transaction.trid);
+
+            return end_rollback( transaction);
+         }
+
+         code::tx Context::end_rollback( const Transaction& transaction)
+         {
+            Trace trace{ "transaction::Context::end_rollback"};
 
             if( transaction.local())
             {
-- 
2.43.0


From 73497a0439fa8ad25c7707ec0e97239ddef1c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 14/30] fix: failing to begin a transaction leaves no work
 behind

When a resource failed to start, the branches that did start were ended but never rolled
back, and a stacked outer transaction was still current but its resources suspended. A
service that failed to start its transaction did not even end the ones that did start.
---
 .../common/source/transaction/context.cpp     | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 7071bd1..b407c37 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -477,15 +477,15 @@ namespace casual
          {
             Trace trace{ "transaction::Context::start"};
 
-            auto transaction = local::start::transaction();
+            // the transaction needs to be known even if some resource fails to start, so the others get ended and rolled back
+            auto& transaction = m_transactions.emplace_back( local::start::transaction());
 
             local::raise::code( local::resources::start::invoke( local::resources::start::policy::start(), transaction, m_resources.fixed),
                "failed to start on ore more fixed resources");
 
             local::log::event( "start", transaction.trid);
 
-            m_transactions.push_back( std::move( transaction));
-            return m_transactions.back();
+            return transaction;
          }
 
          Transaction& Context::branch( const transaction::ID& trid)
@@ -712,6 +712,14 @@ namespace casual
          {
             Trace trace{ "transaction::Context::begin"};
 
+            // if we fail to begin, the ongoing transaction (if any) is still the current one
+            auto resume_current = [ this]()
+            {
+               if( auto& current = Context::current())
+                  if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed); code != code::tx::ok)
+                     log::line( log::category::error, code, " begin - failed to resume resources for transaction: ", current.trid);
+            };
+
             // check "precondition" based on current 
             {
                auto& transaction = current();
@@ -723,7 +731,10 @@ namespace casual
 
                   // Tell the RM:s to suspend
                   if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), transaction, m_resources.all); code != code::tx::ok)
+                  {
+                     resume_current();
                      return local::log::code( code, "failed to suspend resources for transaction: ", transaction);
+                  }
                }
                else if( ! transaction.dynamic().empty())
                   return code::tx::outside;
@@ -743,15 +754,18 @@ namespace casual
 
                if( failed)
                {
-                  // some of the resources failed, make sure we xa_end the successful ones...
+                  // some of the resources failed, make sure we xa_end and roll back the successful ones...
                   algorithm::for_each( successful, [ &transaction]( auto& resource)
                   {
                      // TODO semantics: is it ok to end with success? Seams better than 
                      // to mark this extremely short lived transaction with 'error'. Don't know
                      // how resources "wants it"...
                      resource.end( transaction.trid, flag::xa::Flag::success);
+                     resource.rollback( transaction.trid, flag::xa::Flag::no_flags);
                   });
 
+                  resume_current();
+
                   return local::log::code( code::tx::error, "some resources failed to start: ", algorithm::transform( failed, []( auto& rm){ return rm.id();}));
                }
             }            
-- 
2.43.0


From f0107a74a7ee422de01117852ffb7a2b419e473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:42 +0000
Subject: [PATCH 15/30] fix: chained transactions tell when the new transaction
 could not be started

tx_commit answered with the error of begin, and not TX_NO_BEGIN and its variants, so the
caller could not know that its transaction is committed.
---
 middleware/common/source/transaction/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index b407c37..54d62cc 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1204,7 +1204,7 @@ namespace casual
                   
                case Control::chained:
                   // We start a new one
-                  return code + begin();
+                  return code + ( begin() == code::tx::ok ? code::tx::ok : code::tx::no_begin);
 
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
-- 
2.43.0


From 980475a98f1a4bc6fb3d52f26ad084aaedd53259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 16/30] fix: tell the caller when the transaction of a service
 is rolled back

A service that returned success with its own transaction in rollback-only got it rolled
back, but the caller was told that all was well.
---
 middleware/common/source/transaction/context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 54d62cc..c909564 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -582,8 +582,11 @@ namespace casual
             {
                if( commit && transaction.state == Transaction::State::active)
                   return local::log::code( Context::commit( transaction), "failed to commit trid: ", transaction.trid);
-               else
-                  return invoke_rollback( transaction);
+               
+               auto code = invoke_rollback( transaction);
+
+               // the service wants to commit, but the transaction is rollback only - the caller needs to know
+               return commit ? code + code::tx::rollback : code;
             };
 
             auto transform_state = casual::overloaded{
-- 
2.43.0


From 90c473b64ecf8332b3a79ee9030b3469fc91e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:30 +0000
Subject: [PATCH 17/30] fix: resume the outer transaction although the
 transaction control has been changed

With another control than stacked when the inner transaction completes, the outer became
the current one again but its resources were still suspended, and could not be resumed.
---
 middleware/common/source/transaction/context.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index c909564..47b91b4 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1198,22 +1198,22 @@ namespace casual
             Trace trace{ "transaction::Context::control_continuation"};
             log::line( verbose::log, "code: ", code);
 
+            // There is an outer transaction (stacked, control could have been changed since then) that is
+            // the current one again. Tell the RM:s to resume
+            if( auto& current = Context::current())
+               return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
+
             // Dependent on control we do different stuff
             switch( m_control)
             {
                case Control::unchained:
+               case Control::stacked:
                   // no op
                   return code; 
                   
                case Control::chained:
                   // We start a new one
                   return code + ( begin() == code::tx::ok ? code::tx::ok : code::tx::no_begin);
-
-               case Control::stacked:
-                  // Tell the RM:s to resume, if we've got a transaction
-                  if( auto& current = Context::current())
-                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
-                  return code;
             }
 
             casual::terminate( code::casual::internal_unexpected_value, "unknown control directive: ", std::to_underlying( m_control), " - this can not happen");
-- 
2.43.0


From 9c9c340081d5f79839d50dbfb76dd2523e861c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:42 +0000
Subject: [PATCH 18/30] fix: keep the direction of a conversation with a domain
 of protocol 1.2

---
 middleware/gateway/include/gateway/message/protocol/transform.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/middleware/gateway/include/gateway/message/protocol/transform.h b/middleware/gateway/include/gateway/message/protocol/transform.h
index 7f95726..3c59906 100644
--- a/middleware/gateway/include/gateway/message/protocol/transform.h
+++ b/middleware/gateway/include/gateway/message/protocol/transform.h
@@ -86,6 +86,7 @@ namespace casual
          result.pending = message.pending;
          result.service.name = std::move( message.service.name);
          result.service.timeout.duration = message.deadline.remaining.value_or( platform::time::unit{});
+         result.duplex = message.duplex;
          result.trid = std::move( message.trid);
          return result;
       }
@@ -103,6 +104,7 @@ namespace casual
          if( message.service.timeout.duration > platform::time::unit{})
             result.deadline.remaining = message.service.timeout.duration;
          
+         result.duplex = message.duplex;
          result.trid = std::move( message.trid);
          return result;
       }
-- 
2.43.0


From 68f6f3a28f3fd79fcbab9d526c2728a9d22b9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:42 +0000
Subject: [PATCH 19/30] fix: a task handler might change the tasks of the
 coordinator

---
 middleware/common/include/casual/task/concurrent.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/common/include/casual/task/concurrent.h b/middleware/common/include/casual/task/concurrent.h
index 850a2e6..8d89e15 100644
--- a/middleware/common/include/casual/task/concurrent.h
+++ b/middleware/common/include/casual/task/concurrent.h
@@ -11,6 +11,8 @@
 #include "common/strong/id.h"
 #include "common/message/type.h"
 #include "common/functional.h"
+#include "common/algorithm.h"
+#include "common/algorithm/container.h"
 
 #include <string_view>
 
@@ -190,8 +192,13 @@ namespace casual
          void operator() ( M&& message)
          {
             if( auto found = common::algorithm::find( m_units, message.correlation))
-               if( std::invoke( *found, message) == unit::Dispatch::done)
-                  common::algorithm::container::erase( m_units, std::begin( found));
+            {
+               // the handler might (indirectly) add, remove or fail units, we can't refer to `m_units` during the dispatch.
+               auto unit = common::algorithm::container::extract( m_units, std::begin( found));
+
+               if( std::invoke( unit, message) == unit::Dispatch::pending)
+                  m_units.push_back( std::move( unit));
+            }
          }
 
          bool contains( const common::strong::correlation::id& correlation) const noexcept
-- 
2.43.0


From 54cea91ee0124133c8f06eeef4686222df77e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 20/30] fix: answer the caller when the connection is lost
 during the send

---
 .../gateway/source/group/outbound/handle.cpp  | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index a85b28a..8a84615 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -262,21 +262,15 @@ namespace casual
                            auto connection = state.connections.find_external( descriptor);
                            CASUAL_ASSERT( connection);
 
+                           // we need to do this first. The connection is gone if the send fails, and the task takes care 
+                           // of the reply to the caller. Also, we might do a destructive transform on the message
+                           state.tasks.add( detail::create::task( state, message, connection->descriptor()));
+                           transaction::associate_and_involve( state, message, connection->descriptor());
+
                            if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
-                           {
                               tcp::send( state, connection->descriptor(), message);
-
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
-                           }
                            else
-                           {
-                              // we need to do this first, since we're doing a destructive transform on the message (we cant use after moved)
-                              state.tasks.add( detail::create::task( state, message, connection->descriptor()));
-                              transaction::associate_and_involve( state, message, connection->descriptor());
-
                               tcp::send( state, connection->descriptor(), message::protocol::transform::to< common::message::service::call::v1_2::callee::Request>( std::move( message)));
-                           }
 
                         };
                      }
@@ -502,10 +496,11 @@ namespace casual
 
                            auto tcp = state.connections.partner( descriptor);
 
-                           tcp::send( state, tcp, message);
+                           // we need to do this first, the task takes care of the reply to the caller if the send fails.
                            state.tasks.add( detail::create::task( state, message, tcp));
-
                            transaction::associate_and_involve( state, message, tcp);
+
+                           tcp::send( state, tcp, message);
                         };
                      }  
                   } // basic
-- 
2.43.0


From 0868c1820077205ce86a4798ecac27ba6f722709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 21/30] fix: end a conversation when the connection is lost, or
 the connect is refused

---
 .../gateway/source/group/outbound/handle.cpp  | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 8a84615..254d98c 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -293,7 +293,7 @@ namespace casual
                               strong::ipc::id ipc;
                               platform::time::point::type start;
                               common::transaction::ID trid;
-
+                              bool connected = false;
                            };
 
                            auto shared = std::make_shared< Shared>( Shared{ message.service.name, message.parent, message.process.ipc, platform::time::clock::type::now(), message.trid});
@@ -311,6 +311,15 @@ namespace casual
 
                                  state.multiplex.send( shared->ipc, message);
 
+                                 // if the connect failed, there is no conversation.
+                                 if( ! algorithm::compare::any( message.code.result, code::xatmi::absent, code::xatmi::ok))
+                                 {
+                                    service::metric( state, message, std::move( *shared), message.code);
+                                    return task::concurrent::unit::Dispatch::done;
+                                 }
+
+                                 shared->connected = true;
+
                                  return task::concurrent::unit::Dispatch::pending;
                               },
                               [ &state, shared]( common::message::conversation::callee::Send& message, strong::socket::id descriptor)
@@ -337,6 +346,29 @@ namespace casual
                                  service::metric( state, message, std::move( *shared), { .result = code::xatmi::ok});
 
                                  return task::concurrent::unit::Dispatch::done;
+                              },
+                              [ &state, shared]( casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
+                              {
+                                 Trace trace{ "gateway::group::outbound::handle::local::internal::conversation::task task::Failed"};
+
+                                 auto reply_error = [ &state, &shared, &message]( auto reply)
+                                 {
+                                    reply.correlation = message.correlation;
+                                    reply.code.result = code::xatmi::service_error;
+                                    state.multiplex.send( shared->ipc, reply);
+                                 };
+
+                                 // the other end is gone, we act as if it has ended the conversation with an error
+                                 if( ! shared->connected)
+                                    reply_error( common::message::conversation::connect::Reply{});
+                                 else
+                                 {
+                                    common::message::conversation::callee::Send terminated;
+                                    terminated.duplex = decltype( terminated.duplex)::terminated;
+                                    reply_error( std::move( terminated));
+                                 }
+
+                                 service::metric( state, message, std::move( *shared), { .result = code::xatmi::service_error});
                               }
                               
                            };
-- 
2.43.0


From 182652b40b7eb1b4aa842ed381aba79c92b87134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:49 +0000
Subject: [PATCH 22/30] fix: disconnect a connection to another domain once

---
 middleware/gateway/source/group/outbound/handle.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 254d98c..1ca3322 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -995,7 +995,9 @@ namespace casual
             // unadvertise all associated services and queues, if any.
             handle::unadvertise( state, descriptor);
 
-            state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::disconnect});
+            // the connection might already be about to disconnect
+            if( ! algorithm::find( state.disconnecting, descriptor))
+               state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::disconnect});
          }
 
          void remove( State& state, common::strong::socket::id descriptor)
@@ -1006,7 +1008,11 @@ namespace casual
             // unadvertise all associated services and queues, if any.
             handle::unadvertise( state, descriptor);
 
-            state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::remove});
+            // the connection might already be about to disconnect
+            if( auto found = algorithm::find( state.disconnecting, descriptor))
+               found->directive = state::disconnect::Directive::remove;
+            else
+               state.disconnecting.push_back( state::Disconnect{ descriptor, state::disconnect::Directive::remove});
          }
          
       } // connection
-- 
2.43.0


From db96d8136468259397fd98e4056e972128755c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:05 +0000
Subject: [PATCH 23/30] fix: reply with the transaction id the other domain
 knows

---
 middleware/gateway/source/group/inbound/task/create.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 2934185..4e53d18 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -502,6 +502,9 @@ namespace casual
 
                using reply_type = common::message::reverse::type_t< M>;
 
+               // the trid the other domain knows, needs to be kept before we map to the internal
+               auto origin_trid = message.trid;
+
                // map to the internal trid, we expect to find this in cache
                if( auto found = state.transaction_cache.find( common::transaction::id::range::global( message.trid)))
                {
@@ -516,7 +519,7 @@ namespace casual
                }
 
                return task_unit{ descriptor, message.correlation,
-                  [ &state, origin_trid = message.trid]( reply_type& reply, strong::socket::id descriptor)
+                  [ &state, origin_trid = std::move( origin_trid)]( reply_type& reply, strong::socket::id descriptor)
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_transaction task"};
 
-- 
2.43.0


From 983613d39528e17e280a95e7e3ee2deb832be9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:05 +0000
Subject: [PATCH 24/30] fix: release what is looked up if the request is not
 sent, a call without reply is done when sent

---
 .../source/group/inbound/task/create.cpp      | 38 ++++++++++++++++---
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 4e53d18..1bc1975 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -163,8 +163,15 @@ namespace casual
                         {
                            log::error( code::xatmi::service_error, "destination: ", destination, " is unreachable - action: reply with: ", code::xatmi::service_error);
 
-                           // deserialize the request add a reply to our inbound to emulate a real reply
-                           local::fake_service_error_reply( state, descriptor, serialize::native::complete< message_type>( complete), code::xatmi::service_error);
+                           auto request = serialize::native::complete< message_type>( complete);
+
+                           // no one is waiting for the reply
+                           if constexpr( std::same_as< message_type, common::message::service::call::callee::Request>)
+                              if( flag::contains( request.flags, common::message::service::call::request::Flag::no_reply))
+                                 return;
+
+                           // add a reply to our inbound to emulate a real reply
+                           local::fake_service_error_reply( state, descriptor, std::move( request), code::xatmi::service_error);
                         });
                         break;
                      }
@@ -213,6 +220,21 @@ namespace casual
                   common::transaction::ID origin_trid;
                   common::message::service::call::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
+                  bool sent = false;
+
+                  auto no_reply() const noexcept { return flag::contains( message.flags, common::message::service::call::request::Flag::no_reply);}
+               };
+
+               // sends the request, and deduces if there is anything more to wait for.
+               static constexpr auto send_request = []( State& state, strong::socket::id descriptor, Shared& shared)
+               {
+                  shared.sent = true;
+                  local::send::service_request( state, descriptor, *shared.lookup, shared.message);
+
+                  if( shared.no_reply())
+                     return casual::task::concurrent::unit::Dispatch::done;
+
+                  return casual::task::concurrent::unit::Dispatch::pending;
                };
 
                local::lookup::service( state, descriptor, message);
@@ -238,6 +260,10 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call lookup::Reply"};
 
+                     // no one is waiting for a reply, there is nothing more to do
+                     if( reply.state != decltype( reply.state)::idle && shared->no_reply())
+                        return casual::task::concurrent::unit::Dispatch::done;
+
                      switch( reply.state)
                      {
                         using Enum = decltype( reply.state);
@@ -248,7 +274,7 @@ namespace casual
                            // If the call wasn't in transaction, or we've branched the trid already.
                            // If the call failed, we've "sent" the reply, 
                            if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                              return send_request( state, descriptor, *shared);
 
                            break;
                         }
@@ -272,7 +298,7 @@ namespace casual
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->lookup)
-                        local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                        return send_request( state, descriptor, *shared);
 
                      return casual::task::concurrent::unit::Dispatch::pending;
                   },
@@ -293,9 +319,9 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     if( ! shared->sent)
                      {
-                        // we have a pending lookup, discard.
+                        // we have a pending lookup, or a reserved instance that will not get the request, discard.
                         common::message::service::lookup::discard::Request request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
-- 
2.43.0


From b6269e81eede85abfe7348bd2d7d7a42be8fc744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:25 +0000
Subject: [PATCH 25/30] fix: inbound conversation ends when the connect is
 refused, and the callee is told when the connection is lost

---
 .../gateway/source/group/inbound/handle.cpp   | 15 +------
 .../source/group/inbound/task/create.cpp      | 40 ++++++++++++++++---
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 418bffc..cb30886 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -37,19 +37,6 @@ namespace casual
          {
             namespace internal
             {
-               template< typename Message>
-               auto basic_forward( State& state)
-               {
-                  return [ &state]( Message& message, strong::ipc::descriptor::id descriptor)
-                  {
-                     Trace trace{ "gateway::group::inbound::handle::local::basic_forward"};
-                     common::log::line( verbose::log, "forward message: ", message);
-                     common::log::line( verbose::log, "descriptor: ", descriptor);
-
-                     tcp::send( state, state.connections.partner( descriptor), message);
-                  };
-               }
-
                template< typename Message>
                auto basic_task( State& state)
                {
@@ -84,7 +71,7 @@ namespace casual
                {
                   namespace connect
                   {
-                     auto reply = internal::basic_forward< common::message::conversation::connect::Reply>;
+                     auto reply = internal::basic_task< common::message::conversation::connect::Reply>;
                      
                   } // connect
 
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 1bc1975..957226a 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -341,14 +341,21 @@ namespace casual
             {
                Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation"};
 
-               // connect::Reply and Send from internal we just forward to the corresponding tcp socket, 
-               // no need to handle them in this task (we don't need any information from those messages)
+               // Send from internal we just forward to the corresponding tcp socket, 
+               // no need to handle it in this task (we don't need any information from the message)
 
                struct Shared
                {
                   common::transaction::ID origin_trid;
                   common::message::conversation::connect::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
+                  bool sent = false;
+               };
+
+               static constexpr auto send_request = []( State& state, strong::socket::id descriptor, Shared& shared)
+               {
+                  shared.sent = true;
+                  local::send::service_request( state, descriptor, *shared.lookup, shared.message);
                };
 
                local::lookup::service( state, descriptor, message);
@@ -383,7 +390,7 @@ namespace casual
 
                            // if the call wasn't in transaction, or we've branched the trid already
                            if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                              send_request( state, descriptor, *shared);
 
                            break;
                         }
@@ -407,11 +414,23 @@ namespace casual
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->lookup)
-                        local::send::service_request( state, descriptor, *shared->lookup, shared->message);
+                        send_request( state, descriptor, *shared);
 
                   
                      return casual::task::concurrent::unit::Dispatch::pending;
                   },
+                  [ &state]( common::message::conversation::connect::Reply& reply, strong::socket::id descriptor)
+                  {
+                     Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation connect::Reply"};
+
+                     tcp::send( state, descriptor, reply);
+
+                     // if the connect failed, there is no conversation
+                     if( ! algorithm::compare::any( reply.code.result, code::xatmi::absent, code::xatmi::ok))
+                        return casual::task::concurrent::unit::Dispatch::done;
+
+                     return casual::task::concurrent::unit::Dispatch::pending;
+                  },
                   [ &state, shared]( common::message::conversation::callee::Send& message, strong::socket::id descriptor)
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation Send"};
@@ -438,9 +457,18 @@ namespace casual
                   },
                   [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
                   {
-                     if( ! shared->lookup)
+                     if( shared->sent)
                      {
-                        // we have a pending lookup, discard.
+                        // the other end is gone, we need to tell the callee.
+                        common::message::conversation::Disconnect disconnect;
+                        disconnect.correlation = message.correlation;
+                        disconnect.execution = message.execution;
+
+                        state.multiplex.send( shared->lookup->process.ipc, disconnect);
+                     }
+                     else
+                     {
+                        // we have a pending lookup, or a reserved instance that will not get the request, discard.
                         common::message::service::lookup::discard::Request request;
                         request.correlation = message.correlation;
                         request.execution = message.execution;
-- 
2.43.0


From 704c80bb7e5e21525ed4cb2a6303eef202ca3c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 26/30] fix: keep an inbound queue request until it is answered

---
 .../gateway/source/group/inbound/handle.cpp   | 36 +---------------
 .../source/group/inbound/task/create.cpp      | 43 +++++++++++++------
 2 files changed, 31 insertions(+), 48 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index cb30886..3b04748 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -101,44 +101,12 @@ namespace casual
 
                   namespace dequeue
                   {
-                     auto reply( State& state)
-                     {
-                        return [ &state]( casual::queue::ipc::message::group::dequeue::Reply& message, strong::ipc::descriptor::id descriptor)
-                        {
-                           Trace trace{ "gateway::group::inbound::handle::local::internal::queue::enqueue::reply"};
-                           common::log::line( verbose::log, "message: ", message);
-
-                           auto connection = state.connections.find_external( descriptor);
-                           CASUAL_ASSERT( connection);
-
-                           if( message::protocol::compatible< casual::queue::ipc::message::group::dequeue::Reply>( connection->protocol()))
-                              inbound::tcp::send( state, connection->descriptor(), message);
-                           else
-                              inbound::tcp::send( state, connection->descriptor(), message::protocol::transform::to< casual::queue::ipc::message::group::dequeue::v1_2::Reply>( std::move( message)));
-                        };
-                     }
+                     auto reply = internal::basic_task< casual::queue::ipc::message::group::dequeue::Reply>;
                   } // dequeue
 
                   namespace enqueue
                   {
-                     auto reply( State& state)
-                     {
-                        return [ &state]( casual::queue::ipc::message::group::enqueue::Reply& message, strong::ipc::descriptor::id descriptor)
-                        {
-                           Trace trace{ "gateway::group::inbound::handle::local::internal::queue::enqueue::reply"};
-                           common::log::line( verbose::log, "message: ", message);
-
-                           auto connection = state.connections.find_external( descriptor);
-                           CASUAL_ASSERT( connection);
-
-                           if( message::protocol::compatible< casual::queue::ipc::message::group::enqueue::Reply>( connection->protocol()))
-                              inbound::tcp::send( state, connection->descriptor(), message);
-                           else
-                              inbound::tcp::send( state, connection->descriptor(), message::protocol::transform::to< casual::queue::ipc::message::group::enqueue::v1_2::Reply>( std::move( message)));
-
-                        };
-                     }
-
+                     auto reply = internal::basic_task< casual::queue::ipc::message::group::enqueue::Reply>;
                   } // enqueue
                } // queue
 
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 957226a..d94137c 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -22,6 +22,16 @@ namespace casual
       {
          namespace
          {
+            // tries to send to the "partner ipc", if it's full/busy we try later via state.multiplex.send abstraction
+            template< typename M>
+            void send_to_partner_ipc( State& state, strong::socket::id descriptor, M&& message)
+            {
+               if( auto found = state.connections.find_internal( descriptor))
+                  state.multiplex.send( found->connector().handle().ipc(), std::forward< M>( message));
+               else
+                  log::error( code::casual::internal_correlation, "failed to correlate the ipc partner for tcp descriptor:  ", descriptor);
+            }
+
             namespace lookup
             {
                template< typename C>
@@ -93,22 +103,11 @@ namespace casual
 
                   //! if queue-manager is offline for some reason, we emulate "no-ent";
                   if( ! state.multiplex.send( ipc::manager::optional::queue(), request))
-                     ipc::inbound().push( common::message::reverse::type( request));
+                     local::send_to_partner_ipc( state, descriptor, common::message::reverse::type( request));
                }
 
             } // lookup
 
-            // tries to send to the "partner ipc", if it's full/busy we try later via state.multiplex.send abstraction
-            template< typename M>
-            void send_to_partner_ipc( State& state, strong::socket::id descriptor, M&& message)
-            {
-               if( auto found = state.connections.find_internal( descriptor))
-                  state.multiplex.send( found->connector().handle().ipc(), std::forward< M>( message));
-               else
-                  log::error( code::casual::internal_correlation, "failed to correlate the ipc partner for tcp descriptor:  ", descriptor);
-            }
-         
-
             template< typename M>
             void fake_service_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
             {
@@ -488,7 +487,7 @@ namespace casual
             {
                Trace trace{ "gateway::group::inbound::task::create::local::handle_queue"};
 
-               // The enqueue/dequeue Reply we just forward to the corresponding tcp socket
+               using reply_type = common::message::reverse::type_t< M>;
 
                local::lookup::queue( state, descriptor, message);
 
@@ -529,7 +528,7 @@ namespace casual
                         return casual::task::concurrent::unit::Dispatch::pending;
 
                      local::send::queue_request( state, descriptor, *shared->lookup, shared->message);
-                     return casual::task::concurrent::unit::Dispatch::done;
+                     return casual::task::concurrent::unit::Dispatch::pending;
                   },
                   [ &state, shared]( common::message::transaction::inbound::branch::Reply& reply, strong::socket::id descriptor) mutable
                   {
@@ -544,6 +543,22 @@ namespace casual
                         return casual::task::concurrent::unit::Dispatch::pending;
                      
                      local::send::queue_request( state, descriptor, *shared->lookup, shared->message);
+                     return casual::task::concurrent::unit::Dispatch::pending;
+                  },
+                  [ &state]( reply_type& reply, strong::socket::id descriptor)
+                  {
+                     Trace trace{ "gateway::group::inbound::task::create::local::handle_queue reply"};
+
+                     auto connection = state.connections.find_external( descriptor);
+                     CASUAL_ASSERT( connection);
+
+                     if( message::protocol::compatible< reply_type>( connection->protocol()))
+                        inbound::tcp::send( state, connection->descriptor(), reply);
+                     else if constexpr( std::same_as< reply_type, casual::queue::ipc::message::group::enqueue::Reply>)
+                        inbound::tcp::send( state, connection->descriptor(), message::protocol::transform::to< casual::queue::ipc::message::group::enqueue::v1_2::Reply>( std::move( reply)));
+                     else
+                        inbound::tcp::send( state, connection->descriptor(), message::protocol::transform::to< casual::queue::ipc::message::group::dequeue::v1_2::Reply>( std::move( reply)));
+
                      return casual::task::concurrent::unit::Dispatch::done;
                   }
                };
-- 
2.43.0


From 66342860a4258589bc1bee5406d4cca497607638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:44 +0000
Subject: [PATCH 27/30] fix: disconnect an inbound connection once

---
 middleware/gateway/source/group/inbound/handle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 3b04748..fe8fb81 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -207,8 +207,10 @@ namespace casual
                         {
                            common::log::line( verbose::log, "state.transaction_cache: ", state.transaction_cache);
 
-                           // connection still got pending stuff to do, we keep track until its 'idle'.
-                           state.pending.disconnects.push_back( descriptor);
+                           // connection still got pending stuff to do, we keep track until its 'idle'. 
+                           // We might have asked for (and got) a disconnect before.
+                           if( ! algorithm::contains( state.pending.disconnects, descriptor))
+                              state.pending.disconnects.push_back( descriptor);
                         }
 
                         return true;
-- 
2.43.0


From 438c165d23f74fd737fec6664fae6bc4a1d4ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:35 +0000
Subject: [PATCH 28/30] fix: wait for the branch of the transaction even if the
 lookup fails

---
 .../source/group/inbound/task/create.cpp      | 86 +++++--------------
 1 file changed, 22 insertions(+), 64 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index d94137c..022e4e8 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -111,18 +111,15 @@ namespace casual
             template< typename M>
             void fake_service_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
             {
-               auto reply = common::message::reverse::type( request);
-               reply.code.result = code;
-               local::send_to_partner_ipc( state, descriptor, std::move( reply));
-            }
+               // no one might be waiting for the reply
+               if constexpr( std::same_as< std::remove_cvref_t< M>, common::message::service::call::callee::Request>)
+                  if( flag::contains( request.flags, common::message::service::call::request::Flag::no_reply))
+                     return;
 
-            template< typename M>
-            void fake_conversation_connect_error_reply( State& state, strong::socket::id descriptor, M&& request, common::code::xatmi code)
-            {
                auto reply = common::message::reverse::type( request);
                reply.code.result = code;
                local::send_to_partner_ipc( state, descriptor, std::move( reply));
-            }  
+            }
 
             template< typename M>
             void fake_queue_error_reply( State& state, strong::socket::id descriptor, M&& request)
@@ -162,15 +159,8 @@ namespace casual
                         {
                            log::error( code::xatmi::service_error, "destination: ", destination, " is unreachable - action: reply with: ", code::xatmi::service_error);
 
-                           auto request = serialize::native::complete< message_type>( complete);
-
-                           // no one is waiting for the reply
-                           if constexpr( std::same_as< message_type, common::message::service::call::callee::Request>)
-                              if( flag::contains( request.flags, common::message::service::call::request::Flag::no_reply))
-                                 return;
-
-                           // add a reply to our inbound to emulate a real reply
-                           local::fake_service_error_reply( state, descriptor, std::move( request), code::xatmi::service_error);
+                           // deserialize the request add a reply to our inbound to emulate a real reply
+                           local::fake_service_error_reply( state, descriptor, serialize::native::complete< message_type>( complete), code::xatmi::service_error);
                         });
                         break;
                      }
@@ -181,11 +171,10 @@ namespace casual
                         local::fake_service_error_reply( state, descriptor, message, code::xatmi::no_entry);
                         break;
                      }
-                     default: 
+                     case Enum::timeout:
                      {
-                        log::error( code::casual::internal_unexpected_value, "unexpected state on lookup reply: ", lookup, " - action: reply with: ", code::xatmi::service_error);
                         // add a reply to our inbound to emulate a real reply
-                        local::fake_service_error_reply( state, descriptor, message, code::xatmi::system);
+                        local::fake_service_error_reply( state, descriptor, message, code::xatmi::timeout);
                         break;
                      }
                   }
@@ -259,31 +248,12 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call lookup::Reply"};
 
-                     // no one is waiting for a reply, there is nothing more to do
-                     if( reply.state != decltype( reply.state)::idle && shared->no_reply())
-                        return casual::task::concurrent::unit::Dispatch::done;
+                     shared->lookup = std::move( reply);
 
-                     switch( reply.state)
-                     {
-                        using Enum = decltype( reply.state);
-                        case Enum::idle:
-                        {
-                           shared->lookup = std::move( reply);
-
-                           // If the call wasn't in transaction, or we've branched the trid already.
-                           // If the call failed, we've "sent" the reply, 
-                           if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              return send_request( state, descriptor, *shared);
-
-                           break;
-                        }
-                        case Enum::absent:
-                           local::fake_service_error_reply( state, descriptor, shared->message, code::xatmi::no_entry);
-                           break;
-                        case Enum::timeout:
-                           local::fake_service_error_reply( state, descriptor, shared->message, code::xatmi::timeout);
-                           break;
-                     }
+                     // If the call wasn't in transaction, or we've branched the trid already. Otherwise we need to wait for 
+                     // the branch, regardless if the lookup failed, since the other domain regards us as involved in the transaction.
+                     if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                        return send_request( state, descriptor, *shared);
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
@@ -380,26 +350,11 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation lookup::Reply"};
 
-                     switch( reply.state)
-                     {
-                        using Enum = decltype( reply.state);
-                        case Enum::idle:
-                        {
-                           shared->lookup = std::move( reply);
-
-                           // if the call wasn't in transaction, or we've branched the trid already
-                           if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
-                              send_request( state, descriptor, *shared);
-
-                           break;
-                        }
-                        case Enum::absent:
-                           local::fake_conversation_connect_error_reply( state, descriptor, shared->message, code::xatmi::no_entry);
-                           break;
-                        case Enum::timeout:
-                           local::fake_conversation_connect_error_reply( state, descriptor, shared->message, code::xatmi::timeout);
-                           break;
-                     }
+                     shared->lookup = std::move( reply);
+
+                     // if the call wasn't in transaction, or we've branched the trid already, otherwise we need to wait for the branch
+                     if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                        send_request( state, descriptor, *shared);
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
@@ -458,6 +413,9 @@ namespace casual
                   {
                      if( shared->sent)
                      {
+                        if( shared->lookup->state != decltype( shared->lookup->state)::idle)
+                           return casual::task::concurrent::unit::Dispatch::done;
+
                         // the other end is gone, we need to tell the callee.
                         common::message::conversation::Disconnect disconnect;
                         disconnect.correlation = message.correlation;
-- 
2.43.0


From 187a08855ae950b7a54d9fc1841204edccbc168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:05 +0000
Subject: [PATCH 29/30] fix: an optional device that is gone is not an error
 when multiplexing

---
 middleware/common/include/common/communication/ipc/send.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/middleware/common/include/common/communication/ipc/send.h b/middleware/common/include/common/communication/ipc/send.h
index 67d2bdb..acc060e 100644
--- a/middleware/common/include/common/communication/ipc/send.h
+++ b/middleware/common/include/common/communication/ipc/send.h
@@ -233,7 +233,13 @@ namespace casual
                      {
                         // Let connector take a crack at resolving this problem, if implemented...
                         if( ! device.connector().connect())
-                           throw;
+                        {
+                           // it's ok for an "optional" outbound device to fail
+                           if constexpr( communication::device::outbound::is_optional< D>)
+                              return {};
+                           else
+                              throw;
+                        }
                      }
                      else if( error.code() == code::casual::interrupted)
                         signal::dispatch();
-- 
2.43.0


From d77dd505fbc2c2deeb789a56a0d46d38245f4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 30/30] fix: fail a task that is in the midst of a dispatch
 when the dispatch is done

---
 .../common/include/casual/task/concurrent.h   | 44 +++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/middleware/common/include/casual/task/concurrent.h b/middleware/common/include/casual/task/concurrent.h
index 8d89e15..6fffbeb 100644
--- a/middleware/common/include/casual/task/concurrent.h
+++ b/middleware/common/include/casual/task/concurrent.h
@@ -13,6 +13,7 @@
 #include "common/functional.h"
 #include "common/algorithm.h"
 #include "common/algorithm/container.h"
+#include "common/execute.h"
 
 #include <string_view>
 
@@ -196,7 +197,15 @@ namespace casual
                // the handler might (indirectly) add, remove or fail units, we can't refer to `m_units` during the dispatch.
                auto unit = common::algorithm::container::extract( m_units, std::begin( found));
 
-               if( std::invoke( unit, message) == unit::Dispatch::pending)
+               m_dispatching.emplace_back( unit.key(), unit.correlation());
+               auto guard = common::execute::scope( [ this](){ m_dispatching.pop_back();});
+
+               if( std::invoke( unit, message) == unit::Dispatch::done || m_dispatching.back().removed)
+                  return;
+
+               if( m_dispatching.back().failed)
+                  Coordinator::invoke_failed( unit);
+               else
                   m_units.push_back( std::move( unit));
             }
          }
@@ -215,14 +224,17 @@ namespace casual
          //! then remove the unit. It's optional for the unit to have a handler for message::task::Failed.
          void failed( const Key& key)
          {
+            // units that are in the midst of a dispatch are taken care of when the dispatch is done.
+            for( auto& dispatching : m_dispatching)
+               if( dispatching.key == key)
+                  dispatching.failed = true;
+
             common::algorithm::container::erase_if( m_units, [ &key]( auto& unit)
             {
                if( unit != key)
                   return false;
 
-               message::task::Failed message;
-               message.correlation = unit.correlation();
-               std::invoke( unit, message);
+               Coordinator::invoke_failed( unit);
 
                return true;
             });
@@ -230,6 +242,10 @@ namespace casual
 
          void remove( const common::strong::correlation::id& correlation)
          {
+            for( auto& dispatching : m_dispatching)
+               if( dispatching.correlation == correlation)
+                  dispatching.removed = true;
+
             common::algorithm::container::erase( m_units, correlation);
          }
 
@@ -241,7 +257,27 @@ namespace casual
          )
 
       private:
+
+         static void invoke_failed( unit_type& unit)
+         {
+            message::task::Failed message;
+            message.correlation = unit.correlation();
+            std::invoke( unit, message);
+         }
+
+         struct Dispatching
+         {
+            Dispatching( const Key& key, const common::strong::correlation::id& correlation)
+               : key{ key}, correlation{ correlation} {}
+
+            Key key;
+            common::strong::correlation::id correlation;
+            bool failed = false;
+            bool removed = false;
+         };
+
          std::vector< unit_type> m_units;
+         std::vector< Dispatching> m_dispatching;
       };
       
       
-- 
2.43.0

