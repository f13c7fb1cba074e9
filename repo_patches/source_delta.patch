From 735eb2ce14ce936fbf1d2655e2702aa3670c1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 01/38] fix: set the FIN bit when a message ends on a frame
 boundary

A message whose length is a non-zero multiple of the maximum frame size was
sent without a final frame, so the receiver merged it with the next message.
---
 include/nbdl/websocket/detail/message_sender.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_sender.hpp b/include/nbdl/websocket/detail/message_sender.hpp
index c1a47b3..134066c 100644
--- a/include/nbdl/websocket/detail/message_sender.hpp
+++ b/include/nbdl/websocket/detail/message_sender.hpp
@@ -138,11 +138,14 @@ namespace nbdl::websocket::detail
   void message_sender<Payload, MaxFrameSize>::
   send_message_impl(Resolver& resolver, PayloadBegin begin, PayloadEnd end)
   {
-    auto frag_end = std::next(begin, MaxFrameSize::value);
+    auto frag_end = end;
 
-    if (frag_end > end)
+    if (static_cast<std::size_t>(std::distance(begin, end)) > max_frame_size)
+    {
+      frag_end = std::next(begin, max_frame_size);
+    }
+    else
     {
-      frag_end = end;
       data.apply_fin_bit();
     }
 
-- 
2.43.0


From 8034ac166d86e9b4be45655daa8f70986fccf208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 02/38] fix: keep the endpoint alive while its close frame is
 being sent

The completion of the close frame referred to the send loop that had already
been terminated, and nothing kept the endpoint alive until the write ended.
---
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 49 ++++++++++++-------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 822a0e0..ebd731a 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -118,6 +118,7 @@ namespace nbdl::websocket::detail
 
   private:
     void start_send_queue();
+    void handle_send_error(boost::system::error_code);
     bool is_sending_close();
     void mark_is_close_received();
     auto make_reader_handler(Handler&);
@@ -211,25 +212,29 @@ namespace nbdl::websocket::detail
         {
           sender.data.payload = pending_control_frame.payload;
           nbdl::run_async(hana::make_tuple(
-            nbdl::promise([&](auto& resolver_)
+            nbdl::promise([this, shared_this](auto& resolver_)
             {
+              (void(this));
               detail::send_close(resolver_, sender);
-              // keep is_send_queue_running == true to prevent more messages
-              // after sending the close frame
-              resolver.terminate();
             })
-          , [&](auto& /*sender*/)
+          , [this](auto& /*sender*/)
             {
+              (void(this));
               if (is_close_received)
               {
                 call_handler(endpoint_event::close);
               }
             }
-          , nbdl::catch_([&](std::error_code error_code)
+          , nbdl::catch_([this](boost::system::error_code error)
             {
-              resolver.reject(error_code);
+              (void(this));
+              handle_send_error(error);
             })
           ));
+          // keep is_send_queue_running == true to prevent more messages
+          // after sending the close frame
+          // (this destroys the loop including the current function object)
+          resolver.terminate();
         }
         else
         {
@@ -264,18 +269,7 @@ namespace nbdl::websocket::detail
       {
         (void(this));
         is_send_queue_running = false;
-
-        if ( is_sending_close() 
-         && (asio::error::eof == error || asio::error::connection_reset == error)
-           )
-        {
-          //expected socket close
-          call_handler(endpoint_event::close);
-        }
-        else
-        {
-          call_handler(hana::type_c<std::error_code>, error);
-        }
+        handle_send_error(error);
       })
     , nbdl::catch_([this](auto&& error)
       {
@@ -286,6 +280,23 @@ namespace nbdl::websocket::detail
     ));
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::handle_send_error(
+    boost::system::error_code error)
+  {
+    if ( is_sending_close()
+     && (asio::error::eof == error || asio::error::connection_reset == error)
+       )
+    {
+      //expected socket close
+      call_handler(endpoint_event::close);
+    }
+    else
+    {
+      call_handler(hana::type_c<std::error_code>, error);
+    }
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   bool endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::is_sending_close()
   {
-- 
2.43.0


From 403a6c84f79395daa8fd3f08d8a6fc43de962f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 03/38] fix: report the end of an endpoint once

After the first terminal event (close, bad_request, an error) the endpoint
could call the handler again, e.g. the reader's error and then the sender's,
although the handler of the first may already have resolved the promise or
destroyed the endpoint. Report only the first and send nothing on a
connection that has failed.
---
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index ebd731a..1d61488 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -105,6 +105,8 @@ namespace nbdl::websocket::detail
       , is_started(false)
       , is_stopped(false)
       , is_close_received(false)
+      , is_end_reported(false)
+      , is_failed(false)
     {
       init(self(), socket, handler);
     }
@@ -121,6 +123,7 @@ namespace nbdl::websocket::detail
     void handle_send_error(boost::system::error_code);
     bool is_sending_close();
     void mark_is_close_received();
+    void mark_is_failed();
     auto make_reader_handler(Handler&);
 
     template <typename Key, typename ...Args>
@@ -142,6 +145,8 @@ namespace nbdl::websocket::detail
     bool is_started : 1;
     bool is_stopped : 1;
     bool is_close_received : 1;
+    bool is_end_reported : 1;
+    bool is_failed : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -195,6 +200,7 @@ namespace nbdl::websocket::detail
   {
     if (       is_send_queue_running
             or is_stopped
+            or is_failed
         or not is_started)
     {
       return;
@@ -284,6 +290,8 @@ namespace nbdl::websocket::detail
   void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::handle_send_error(
     boost::system::error_code error)
   {
+    mark_is_failed();
+
     if ( is_sending_close()
      && (asio::error::eof == error || asio::error::connection_reset == error)
        )
@@ -309,6 +317,12 @@ namespace nbdl::websocket::detail
     is_close_received = true;
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::mark_is_failed()
+  {
+    is_failed = true;
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   auto endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::make_reader_handler(Handler&)
   {
@@ -349,6 +363,7 @@ namespace nbdl::websocket::detail
     , hana::make_pair(hana::type_c<std::error_code>, [this](std::error_code error, auto const&)
       {
         (void(this));
+        mark_is_failed();
         call_handler(hana::type_c<std::error_code>, error);
       })
     );
@@ -358,11 +373,18 @@ namespace nbdl::websocket::detail
   template <typename Key, typename ...Args>
   void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::call_handler(Key key, Args&& ...args)
   {
-    if (is_stopped)
+    if (is_stopped or is_end_reported)
     {
       return;
     }
 
+    // Anything but a message is the end of the conversation,
+    // and it is reported once.
+    if constexpr(not decltype(key == endpoint_event::message)::value)
+    {
+      is_end_reported = true;
+    }
+
     handler[key](self(), std::forward<Args>(args)...);
   }
 
-- 
2.43.0


From 653863b24aeefe9137c6da7b6af96008cf9fdd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 04/38] fix: send a close that was requested before messaging
 started

start_messaging only started the send queue when messages were waiting, so a
close frame requested earlier was never sent.
---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 1d61488..536f2b3 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -188,7 +188,7 @@ namespace nbdl::websocket::detail
 
       reader.keep_reading(this->shared_from_this());
 
-      if (send_queue.size() > 0)
+      if (send_queue.size() > 0 or is_sending_close())
       {
         start_send_queue();
       }
-- 
2.43.0


From b09a6ede944d6461d9b8af214dc3d6d70a3db2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 05/38] fix: unmask each fragment of a message where it lies

A masked continuation frame was unmasked at the start of the message instead
of at the bytes it brought, which garbled every fragmented masked message.
---
 include/nbdl/websocket/detail/message_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 03a3c3d..f184518 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -175,7 +175,7 @@ namespace nbdl::websocket::detail
     asio::async_read(
       frame_ctx.socket
     , asio::buffer(&payload[current_offset], length)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
+    , [&resolver, &payload, &frame_ctx, current_offset, length](std::error_code error_code, std::size_t)
       {
         if (error_code)
         {
@@ -187,7 +187,7 @@ namespace nbdl::websocket::detail
           {
             for (int i = 0; i < length; i++)
             {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
+              payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
           }
           resolver.resolve(read_event::message);
-- 
2.43.0


From 011ae7c76aab4c9d28d014ed175b2dc995a661ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 06/38] fix: do not trust the frame length a peer claims

Lengths above INT_MAX overflowed an int shift and were truncated to a
negative int, and a length that cannot be allocated ended the process because
the exception left a noexcept promise. Such frames are bad input, and so are
close frames longer than a control frame may be.
---
 .../nbdl/websocket/detail/message_reader.hpp  | 42 +++++++++++++++----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index f184518..8cf6e40 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -14,6 +14,7 @@
 #include <boost/asio.hpp>
 #include <boost/hana/tuple.hpp>
 #include <cstdint>
+#include <new>
 
 namespace nbdl::websocket::detail
 {
@@ -145,7 +146,7 @@ namespace nbdl::websocket::detail
       // 16 bit
       for (int i = 0; i < 2; i++)
       {
-        length |= (x.extended_length_buf[1 - i] << (8 * i));
+        length |= (uint64_t{x.extended_length_buf[1 - i]} << (8 * i));
       }
     }
     else if(length_code == 127)
@@ -153,7 +154,7 @@ namespace nbdl::websocket::detail
       // 64 bit
       for (int i = 0; i < 8; i++)
       {
-        length |= (x.extended_length_buf[7 - i] << (8 * i));
+        length |= (uint64_t{x.extended_length_buf[7 - i]} << (8 * i));
       }
     }
     else
@@ -163,14 +164,33 @@ namespace nbdl::websocket::detail
     return length;
   }
 
+  // RFC 6455 5.5
+  constexpr uint64_t max_control_payload = 125;
+
   constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    const uint64_t length = get_payload_length(frame_ctx);
     // we are appending a fixed length of bytes
     // to a possibly existing payload
     auto& payload = frame_ctx.payload;
     std::size_t current_offset = payload.size();
-    payload.resize(payload.size() + length);
+
+    // the length is whatever the peer claims
+    if (length > payload.max_size() - current_offset)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
+    try
+    {
+      payload.resize(current_offset + length);
+    }
+    catch (std::bad_alloc const&)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
 
     asio::async_read(
       frame_ctx.socket
@@ -185,7 +205,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (uint64_t i = 0; i < length; i++)
             {
               payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
@@ -196,10 +216,16 @@ namespace nbdl::websocket::detail
     );
   };
 
-  // control frame 'close' can have a payload of <= 127 bytes
+  // control frame 'close' can have a payload of <= 125 bytes
   constexpr auto read_close_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    const uint64_t length = get_payload_length(frame_ctx);
+
+    if (length > max_control_payload)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
 
     // destroy the existing payload
     auto& payload = frame_ctx.payload;
@@ -218,7 +244,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (uint64_t i = 0; i < length; i++)
             {
               payload[i] ^= frame_ctx.mask_key[i % 4];
             }
-- 
2.43.0


From b00fa60b94e5456377194b48e8ae262d38fb4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 07/38] fix: read the payload of ping and pong frames

It was left in the stream and parsed as the next frame header. It goes to a
buffer of its own because a ping may come between the fragments of a message.
---
 .../nbdl/websocket/detail/endpoint_impl.hpp   |  2 +-
 .../nbdl/websocket/detail/message_reader.hpp  | 44 ++++++++++++++++++-
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 536f2b3..9bddffe 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -352,7 +352,7 @@ namespace nbdl::websocket::detail
     , hana::make_pair(read_event::ping, [this](auto, auto const& frame_ctx)
       {
         (void(this));
-        pending_control_frame.to_pong(std::move(frame_ctx.payload));
+        pending_control_frame.to_pong(frame_ctx.control_payload);
       })
     , hana::make_pair(read_event::pong, [](auto&& ...) { })
     , hana::make_pair(read_event::bad_input, [this](auto&& ...)
diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 8cf6e40..ac4c591 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -60,6 +60,8 @@ namespace nbdl::websocket::detail
     std::array<unsigned char, 8> extended_length_buf;
     std::array<unsigned char, 4> mask_key;
     Payload payload;
+    // a ping or a pong may come between the fragments of a message
+    Payload control_payload;
 
     frame_context_t(tcp::socket& s)
       : socket (s)
@@ -255,6 +257,44 @@ namespace nbdl::websocket::detail
     );
   };
 
+  // 'ping' and 'pong' can have a payload of <= 125 bytes
+  constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event)
+  {
+    const uint64_t length = get_payload_length(frame_ctx);
+
+    if (length > max_control_payload)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
+    auto& payload = frame_ctx.control_payload;
+    payload.resize(length, 0);
+
+    asio::async_read(
+      frame_ctx.socket
+    , asio::buffer(payload)
+    , [&resolver, &payload, &frame_ctx, length, event](std::error_code error_code, std::size_t)
+      {
+        if (error_code)
+        {
+          resolver.reject(error_code);
+        }
+        else
+        {
+          if (has_mask_key(frame_ctx))
+          {
+            for (uint64_t i = 0; i < length; i++)
+            {
+              payload[i] ^= frame_ctx.mask_key[i % 4];
+            }
+          }
+          resolver.resolve(event);
+        }
+      }
+    );
+  };
+
   // This kind of dispatching can be done only because
   // all of the branches are stateless.
   auto opcode_dispatch = nbdl::promise([](auto& resolver, auto& frame_ctx)
@@ -270,10 +310,10 @@ namespace nbdl::websocket::detail
         read_close_payload(resolver, frame_ctx);
         break;
       case 0x9: // PING
-        resolver.resolve(read_event::ping);
+        read_control_payload(resolver, frame_ctx, read_event::ping);
         break;
       case 0xA: // PONG
-        resolver.resolve(read_event::pong);
+        read_control_payload(resolver, frame_ctx, read_event::pong);
         break;
       default:
         resolver.reject(read_event::bad_input);
-- 
2.43.0


From 6d27ccc0e811873ac2401138a37d81045ec229a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 08/38] fix: destroy the value hold_lazy holds before it makes
 the next one

In a run_async_loop every round constructed a value over the one before,
which was never destroyed.
---
 include/nbdl/hold_lazy.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nbdl/hold_lazy.hpp b/include/nbdl/hold_lazy.hpp
index b72c0c0..c45a4cf 100644
--- a/include/nbdl/hold_lazy.hpp
+++ b/include/nbdl/hold_lazy.hpp
@@ -59,6 +59,13 @@ namespace nbdl
       template <typename Resolver, typename ...Xs>
       void operator()(Resolver& resolver, Xs&& ...xs) noexcept
       {
+        // a loop comes here again and again
+        if (engaged)
+        {
+          engaged = false;
+          value.~T();
+        }
+
         new(std::addressof(value)) T(this->f(resolver, std::forward<Xs>(xs)...));
         engaged = true;
       }
-- 
2.43.0


From 39dbd0224391f18499af683d0803dab408782bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 09/38] fix: send an upstream read when it creates the store's
 placeholder

---
 include/nbdl/context.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..1566cf2 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -161,6 +161,12 @@ namespace nbdl
       auto& store = stores[path_type];
       if constexpr(message::is_upstream<Message> && message::is_read<Message>)
       {
+        bool is_read_in_progress = false;
+        nbdl::match(store, message::get_path(m), hana::overload_linearly(
+          [&](nbdl::unresolved) { is_read_in_progress = true; },
+          [](auto&&) { }
+        ));
+
         nbdl::apply_message(store, m);
         // send response message
         nbdl::match(store, message::get_path(m), hana::overload_linearly(
@@ -174,10 +180,15 @@ namespace nbdl
           },
           [&](nbdl::unresolved)
           {
-            // Do nothing. A read is already in progress.
+            // Do nothing if a read is already in progress.
             // The Consumer should notify the appropriate requestors
             // once the response (downstream read message)
             // is received.
+            if (!is_read_in_progress)
+            {
+              // The placeholder was created by this message.
+              propagate_upstream(m);
+            }
           },
           [&](auto&& value)
           {
-- 
2.43.0


From a94170c51e8e5a3c9d17fac61484456fbd6e4181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 10/38] fix: let map_store ask the context for values it does
 not have

---
 include/nbdl/echo_producer.hpp |  6 +++++-
 include/nbdl/map_store.hpp     | 10 +++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e383819..58e227e 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -67,7 +67,11 @@ namespace nbdl
     template <typename Producer, typename Message>
     static constexpr void apply(Producer const& p, Message const& m)
     {
-      if constexpr(message::requires_key_for_downstream<Message>)
+      if constexpr(message::is_read<Message>)
+      {
+        // There is nothing to read.
+      }
+      else if constexpr(message::requires_key_for_downstream<Message>)
       {
         nbdl::apply_message(
           p.context
diff --git a/include/nbdl/map_store.hpp b/include/nbdl/map_store.hpp
index 7b28e80..dcb4e7e 100644
--- a/include/nbdl/map_store.hpp
+++ b/include/nbdl/map_store.hpp
@@ -187,7 +187,15 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      if (s.map.find(k) == s.map.end())
+      {
+        // Let the context request the value.
+        std::forward<Fn>(fn)(nbdl::trigger_read{});
+      }
+      else
+      {
+        nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      }
     }
   };
 }
-- 
2.43.0


From 529e6118735d9abef57632ddea383febeb80c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 11/38] fix: read the private payload from where it is stored

---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..0065ad6 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
-- 
2.43.0


From 521bfd3c1c02989029dbec630c6edaa824a547a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 12/38] fix: report whether a delta changed a local_version

---
 include/nbdl/local_version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index 1e852e0..c239588 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -138,7 +138,7 @@ namespace nbdl
         // apply delta to store
         if (message::is_confirmed(m))
         {
-          apply_confirmed_delta(
+          return apply_confirmed_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
@@ -146,7 +146,7 @@ namespace nbdl
         }
         else
         {
-          apply_local_delta(
+          return apply_local_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 2ef912aa84c8a9c99fdc7dc1c8efc42c4428a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 13/38] fix: let a whole value replace the pending delta of a
 local_version

---
 include/nbdl/local_version.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index c239588..e1815a9 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -159,6 +159,15 @@ namespace nbdl
           !std::is_same<Payload, void>::value
         , "Store message must have a payload for this store."
         );
+        // A whole value replaces what the pending delta knows of the old one
+        if constexpr(std::is_same<std::decay_t<Payload>, std::decay_t<decltype(store.value)>>::value)
+        {
+          nbdl::apply_delta(
+            nbdl::make_delta<nbdl::delta_tag>(message::get_payload(m))
+          , store.pending_delta
+          );
+        }
+
         return nbdl::apply_action(
           store.value
         , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 0aac50ee1842001c7f1704342e9fb7314cb2cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 14/38] fix: seed identifiers with more than 32 bits of entropy

---
 include/nbdl/uid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/uid.hpp b/include/nbdl/uid.hpp
index f3ad8a7..1e82963 100644
--- a/include/nbdl/uid.hpp
+++ b/include/nbdl/uid.hpp
@@ -97,7 +97,8 @@ namespace nbdl
   {
     static_assert(sizeof(typename uid::storage_t) == sizeof(std::array<uint32_t, 4>));
     std::random_device rd{};
-    std::mt19937 mt_{rd()};
+    std::seed_seq seed{rd(), rd(), rd(), rd(), rd(), rd(), rd(), rd()};
+    std::mt19937 mt_{seed};
 
     return [mt = std::move(mt_)]() mutable
     {
-- 
2.43.0


From 26efda59d681ac723d767fe27f9c33ba92edcbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 15/38] fix: encode bytes of 0x80 and above in char buffers

---
 include/nbdl/util/base64_encode.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..19ac35e 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -61,9 +61,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            static_cast<unsigned char>(buffer[i    ]) << 24
+          | static_cast<unsigned char>(buffer[i + 1]) << 16
+          | static_cast<unsigned char>(buffer[i + 2]) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +71,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= static_cast<unsigned char>(buffer[round_length + i]) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From 0ed01bf14e8987855c7036630d8664058c1fdcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 16/38] fix: write empty containers as JSON arrays

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3e7e577..0a9d184 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -213,6 +213,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template <typename Container>
       void bind_container(Container const& c)
       {
+        json_val = Json::Value(Json::arrayValue);
         for (auto const& x : c)
         {
           Json::Value el;
-- 
2.43.0


From de149573f69701a97e68f3bec7a493f84a0db4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 17/38] fix: refuse buffers that are not base64 in JSON

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 0a9d184..ce8d63b 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -123,7 +123,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         nbdl::string temp{};
         bind_string(temp);
-        nbdl::util::base64_decode(temp, b);
+        if (!nbdl::util::base64_decode(temp, b))
+          throw std::runtime_error("JSON Base64 String expected");
       }
 
       template <typename String>
-- 
2.43.0


From f87a605171c558d465236b716cf381067905e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 18/38] fix: read enumerators by their underlying type from
 JSON

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index ce8d63b..1a8a622 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -66,7 +66,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_enum(Json::Value const& obj, T& field) {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = static_cast<T>(obj.asUInt());
+        if constexpr (std::is_signed_v<std::underlying_type_t<T>>)
+          field = static_cast<T>(obj.asInt());
+        else
+          field = static_cast<T>(obj.asUInt());
       }
 
       void bind_(Json::Value const& obj, double& field)
-- 
2.43.0


From 372e2dccb2be11fd773b17c67310c3ce85426a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 19/38] fix: refuse too short base64 before its length is
 judged

---
 include/nbdl/util/base64_decode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..ebaf712 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -168,9 +168,9 @@ namespace nbdl::util
       using base64_detail::validate;
       using base64_detail::decode;
 
+      if (not validate(input)) return false;
       if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
       if (output.size() == 0) return true;
-      if (not validate(input)) return false;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From 8723ced79e0076238acfef1dacb0d9b758832ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 20/38] fix: let boolean and floating point members be read
 from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 1a8a622..7548ba2 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -91,7 +91,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_member(T& field)
       {
         using T_ = std::remove_reference_t<T>;
-        if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
+        if constexpr(std::is_same_v<T_, bool>) {
+          bind_(json_val, field);
+        }
+        else if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
           bind_unsigned(json_val, field);
         }
         else if constexpr(std::is_integral_v<T_>) {
@@ -101,7 +104,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
           bind_enum(json_val, field);
         }
         else {
-          bind_(json_val, std::forward<T>(field));
+          bind_(json_val, field);
         }
       }
 
-- 
2.43.0


From a526bb9683fdade1b77daa9158109b49d0154d68 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 21/38] hook: js_val::handle on 64-bit hosts
 (NBDL_SIM_JS_HANDLE)

---
 include/nbdl/detail/js_val.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nbdl/detail/js_val.hpp b/include/nbdl/detail/js_val.hpp
index 573219f..fc4cabe 100644
--- a/include/nbdl/detail/js_val.hpp
+++ b/include/nbdl/detail/js_val.hpp
@@ -45,8 +45,13 @@ namespace nbdl::detail
 
     int handle() const
     {
+#ifdef NBDL_SIM_JS_HANDLE
+      // simulation on a 64-bit host: an int that stands for this address
+      return NBDL_SIM_JS_HANDLE(this);
+#else
       static_assert(sizeof(int) == sizeof(void*));
       return reinterpret_cast<int>(this);
+#endif
     }
 
     emscripten::val as_val() const
-- 
2.43.0


From 88bd03fc240897751af14c6783eab3eec4eca9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 22/38] fix: show and replace every kind of branch where it
 belongs

Branches that are nested, empty or of several nodes, and values no branch
matches, left the page in pieces or threw.
---
 include/nbdl/webui/detail/dom_manips.hpp | 81 +++++++++++++++++-------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index aa6cc4a..917ada8 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -326,6 +326,50 @@ namespace nbdl::webui::detail
     return NodeContainers{{(static_cast<void>(i), emscripten::val::undefined())...}};
   }
 
+  // The place of nodes that come and go: what is between two empty text nodes.
+  // It moves along with them when the node it is in is a branch itself.
+  struct node_range
+  {
+    emscripten::val first;
+    emscripten::val last;
+
+    node_range()
+      : first(emscripten::val::undefined())
+      , last(emscripten::val::undefined())
+    { }
+
+    static emscripten::val make_container()
+    {
+      return emscripten::val::global("document").template
+        call<emscripten::val>("createDocumentFragment");
+    }
+
+    void append_to(emscripten::val& parent)
+    {
+      auto document = emscripten::val::global("document");
+      first = document.template call<emscripten::val>("createTextNode", emscripten::val(""));
+      last  = document.template call<emscripten::val>("createTextNode", emscripten::val(""));
+      parent.template call<void>("appendChild", first);
+      parent.template call<void>("appendChild", last);
+    }
+
+    void insert(emscripten::val const& container)
+    {
+      last["parentNode"].template call<void>("insertBefore", container, last);
+    }
+
+    void move_to(emscripten::val const& container)
+    {
+      emscripten::val node = first["nextSibling"];
+      while (!node.strictlyEquals(last))
+      {
+        emscripten::val next = node["nextSibling"];
+        container.template call<void>("appendChild", node);
+        node = std::move(next);
+      }
+    }
+  };
+
   //  Branches - list<pair<T, list<action...>>...>
   template <typename Store, typename Tag, typename PathSpec, typename Branches>
   struct mut_action_fn<ui_spec::branch_spec<Tag, PathSpec, Branches>, Store>
@@ -336,14 +380,15 @@ namespace nbdl::webui::detail
     using NodeContainers = std::array<emscripten::val, mp_size<FnLists>::value>;
 
     Store store;
-    emscripten::val parent_el;
+    node_range nodes;
     std::size_t branch_id;
+    // the nodes of each branch while it is not shown
     NodeContainers node_containers;
     Renderers renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , parent_el(emscripten::val::undefined())
+      , nodes()
       , branch_id(-1)
       , node_containers(make_branch_node_containers<NodeContainers>(
           std::make_index_sequence<mp_size<FnLists>::value>{}
@@ -353,30 +398,20 @@ namespace nbdl::webui::detail
 
     void update_branch()
     {
-      // FIXME
-      // How do we know if the child is a branch and its element changes??
-      // Options:
-      // 1. We could flatten composed branches to prevent nesting.
-      // 2. Nested renderers could have a get_element function that refers
-      //    to this node's current element.
-
+      // There may be no branch for the current value
       std::size_t index = nbdl::ui_helper::get_branch_index<BranchSpec>(store);
       if (index != branch_id)
       {
         // Something changed! :D
-        if (branch_id != static_cast<std::size_t>(-1))
+        if (branch_id < node_containers.size())
         {
-          parent_el.template call<void>(
-            "replaceChild"
-          , node_containers[index]
-          , node_containers[branch_id]
-          );
+          nodes.move_to(node_containers[branch_id]);
         }
-        else
+
+        if (index < node_containers.size())
         {
-          parent_el.template call<void>("appendChild", node_containers[index]);
+          nodes.insert(node_containers[index]);
         }
-
       }
       branch_id = index;
     }
@@ -400,16 +435,14 @@ namespace nbdl::webui::detail
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      parent_el = p;
-
-      auto temp_span = emscripten::val::global("document").template
-        call<emscripten::val>("createElement", emscripten::val("span"));
+      nodes.append_to(p);
 
       constexpr auto range = hana::make_range(hana::size_c<0>, mp_size<FnLists>{}); 
       hana::for_each(range, [&](auto index)
       {
-        hana::at(renderers, index).render(temp_span);
-        node_containers[decltype(index)::value] = temp_span["lastChild"];
+        auto container = node_range::make_container();
+        hana::at(renderers, index).render(container);
+        node_containers[decltype(index)::value] = container;
       });
 
       update_branch();
-- 
2.43.0


From bd3f426a4cb2e2b0b848fcca6861f3493857c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:42 +0000
Subject: [PATCH 23/38] fix: keep the siblings of a list, and lists inside
 branches

for_each cleared everything in its parent and forgot where it was when a
branch moved.
---
 include/nbdl/webui/detail/dom_manips.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index 917ada8..9043b89 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -653,19 +653,19 @@ namespace nbdl::webui::detail
     using NodeRenderer = renderer_impl<decltype(std::declval<Range>().begin()), NodeFnList, hana::true_>;
 
     Store store;
-    emscripten::val el;
+    node_range nodes;
     std::vector<NodeRenderer> renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , el(emscripten::val::undefined())
+      , nodes()
       , renderers()
     { }
 
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      el = p;
+      nodes.append_to(p);
       update();
       return std::forward<ParentElement>(p);
     }
@@ -673,7 +673,8 @@ namespace nbdl::webui::detail
     void update()
     {
       // This is currently very naive.
-      el.set("innerHTML", emscripten::val(""));
+      auto fragment = node_range::make_container();
+      nodes.move_to(fragment);
       ui_helper::match_path_spec(store, PathSpec{}, [&](auto const& container)
       {
         Range range = store_range(ItrKey{}, container, store);
@@ -685,16 +686,18 @@ namespace nbdl::webui::detail
           x.destroy();
         }
 
+        fragment = node_range::make_container();
         std::vector<NodeRenderer> temp_renderers{};
         temp_renderers.reserve(container.size());
 
         for (auto x : range)
         {
           NodeRenderer temp_renderer{x};
-          temp_renderer.render(el);
+          temp_renderer.render(fragment);
           temp_renderers.push_back(std::move(temp_renderer));
         }
         renderers = std::move(temp_renderers);
+        nodes.insert(fragment);
       });
     }
 
-- 
2.43.0


From 7f9d362ccfa71f730b04bf4d2f9673ee024ab883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 24/38] fix: let an event handler send more than one action

The first one may re-render the list that owns the receiver.
---
 include/nbdl/webui/detail/event_receiver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 2fde6b0..70a7568 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -59,10 +59,12 @@ namespace nbdl::webui::detail
     void receive_event()
     {
       auto store_with_event = nbdl::store_compose(html::event_data, std::ref(vals->event_data), store);
-      auto send = [&](auto&& message)
+      // an action may take down the element this receiver belongs to
+      auto send = [s = store](auto&& message)
       {
+        auto target = s;
         nbdl::apply_action(
-          store
+          target
         , std::forward<decltype(message)>(message)
         );
       };
-- 
2.43.0


From 3f9300e685bb76ae801b8362451be8b044487408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 25/38] fix: ignore events of the socket of a destroyed browser
 endpoint

---
 include/nbdl/websocket_api/detail/endpoint_impl.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index 0cce7b8..c73cbd0 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -116,8 +116,15 @@ namespace nbdl::websocket_api::detail
         var s = new window.WebSocket(UTF8ToString($0, $1));
         s.binaryType = 'arraybuffer';
 
+        // the endpoint may be destroyed before its socket
+        var is_gone = function()
+        {
+          return Module.NBDL_DETAIL_JS_GET($3) !== s;
+        };
+
         s.addEventListener('open', function(event)
         {
+          if (is_gone()) return;
           Module.__nbdl_endpoint_ready($2); 
         });
 
@@ -127,6 +134,7 @@ namespace nbdl::websocket_api::detail
 
         s.addEventListener('message', function(event)
         {
+          if (is_gone()) return;
           Module.NBDL_DETAIL_JS_SET(
             Module.__nbdl_endpoint_value_handle($2)
           , event.data
@@ -136,6 +144,7 @@ namespace nbdl::websocket_api::detail
 
         s.addEventListener('close', function(event)
         {
+          if (is_gone()) return;
           Module.NBDL_DETAIL_JS_SET(
             Module.__nbdl_endpoint_value_handle($2)
           , event.code
-- 
2.43.0


From db915e1284281ee485d0d289757c282f27a14ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 26/38] fix: send the bytes of the payload, not the whole
 memory, from a browser endpoint

---
 include/nbdl/websocket_api/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index c73cbd0..dea049b 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -229,7 +229,7 @@ namespace nbdl::websocket_api::detail
     {
       EM_ASM_(
         {
-          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.subarray($1, $2).buffer);
+          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.slice($1, $1 + $2).buffer);
         }
       , js::detail::get_handle(websocket)
       , p.data()
-- 
2.43.0


From 817f7f846dc3561dfd644c07843de28f903540f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 27/38] fix: hand received bytes and text to the handlers of a
 browser endpoint

---
 .../nbdl/websocket_api/detail/convert_payload.hpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nbdl/websocket_api/detail/convert_payload.hpp b/include/nbdl/websocket_api/detail/convert_payload.hpp
index d72a0c9..008861c 100644
--- a/include/nbdl/websocket_api/detail/convert_payload.hpp
+++ b/include/nbdl/websocket_api/detail/convert_payload.hpp
@@ -26,27 +26,27 @@ namespace nbdl::websocket_api::detail
   {
     static_assert(sizeof(Char) == 1);
 
-    static void apply(nbdl::detail::js_val const& val, std::vector<unsigned char>& p)
+    static void apply(nbdl::detail::js_val const& val, std::vector<Char, Allocator>& p)
     {
       int len = EM_ASM_INT(
         {
-          return Module.NBDL_DETAIL_JS_GET($0).length;
+          var v = Module.NBDL_DETAIL_JS_GET($0);
+          return typeof v === 'string' ? (new TextEncoder()).encode(v).length
+                                       : v.byteLength;
         }
       , js::detail::get_handle(val)
       );
       p.resize(len);
-      p.clear();
       EM_ASM_(
         {
           var v = Module.NBDL_DETAIL_JS_GET($0);
           if (typeof v === 'string')
           {
-            Module.stringToAscii(v, $1);
+            Module.HEAPU8.set((new TextEncoder()).encode(v), $1);
           }
           else // assume its an ArrayBuffer
           {
-            var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-            heap.set(v);
+            Module.HEAPU8.set(new Uint8Array(v), $1);
           }
         }
       , js::detail::get_handle(val)
-- 
2.43.0


From 03992f755468755310498b35ae7ced9645dd3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 28/38] fix: keep text that is not ASCII when it comes from
 JavaScript

---
 include/nbdl/binder/js.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/binder/js.hpp b/include/nbdl/binder/js.hpp
index a13a770..08865e4 100644
--- a/include/nbdl/binder/js.hpp
+++ b/include/nbdl/binder/js.hpp
@@ -96,7 +96,7 @@ namespace nbdl::binder::js
 
   namespace detail
   {
-    int get_variant_type_id(js_val const& val)
+    inline int get_variant_type_id(js_val const& val)
     {
       return EM_ASM_INT(
         {
@@ -288,7 +288,9 @@ namespace nbdl::binder::js
 
         int length = EM_ASM_INT(
           {
-            return Module.NBDL_DETAIL_JS_GET($0).length;
+            var v = Module.NBDL_DETAIL_JS_GET($0);
+            return typeof v === 'string' ? (new TextEncoder()).encode(v).length
+                                         : v.byteLength;
           }
         , val.handle()
         );
@@ -300,12 +302,11 @@ namespace nbdl::binder::js
             var v = Module.NBDL_DETAIL_JS_GET($0);
             if (typeof v === 'string')
             {
-              Module.stringToAscii(v, $1);
+              Module.HEAPU8.set((new TextEncoder()).encode(v), $1);
             }
             else // assume its an ArrayBuffer
             {
-              var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-              heap.set(v);
+              Module.HEAPU8.set(new Uint8Array(v), $1);
             }
           }
         , val.handle()
-- 
2.43.0


From 9a0089d188dc3e60962e52aee1a78f94509279ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 29/38] fix: release the callbacks of a JavaScript promise when
 it settles

---
 include/nbdl/macros/NBDL_JS_PROMISE.hpp      | 37 ++++++++++++--------
 include/nbdl/webui/detail/event_receiver.hpp |  5 ++-
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/nbdl/macros/NBDL_JS_PROMISE.hpp b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
index a4245ed..1da48c9 100644
--- a/include/nbdl/macros/NBDL_JS_PROMISE.hpp
+++ b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
@@ -13,33 +13,42 @@
 
 #include <boost/hana/tuple.hpp>
 #include <array>
+#include <memory>
 #include <utility>
 
 namespace nbdl::js::detail
 {
+  struct promise_callbacks
+  {
+    std::unique_ptr<callback_t> resolve;
+    std::unique_ptr<callback_t> reject;
+  };
+
   constexpr auto make_promise = [](auto js_routine)
   {
     return nbdl::promise([js_routine](auto& resolver, auto const& input_vals)
     {
-      // Really weird lifetime management stuffs here
-      // pair(resolve, reject)
-      std::pair<callback_t, callback_t>* delete_me{};
+      // The callbacks live until one of them is called. They own
+      // the function and the value they are called with.
+      auto* callbacks = new promise_callbacks{};
 
-      auto resolve = callback([&resolver, delete_me](auto const& result)
+      callbacks->resolve.reset(new callback_t(callback([&resolver, callbacks](auto const& result)
       {
-        delete delete_me;
-        resolver.resolve(result);
-      });
+        auto& r = resolver;
+        val v{result};
+        delete callbacks;
+        r.resolve(v);
+      })));
 
-      auto reject  = callback([&resolver, delete_me](auto const& result)
+      callbacks->reject.reset(new callback_t(callback([&resolver, callbacks](auto const& result)
       {
-        delete delete_me;
-        resolver.reject(result);
-      });
-
-      delete_me = new std::pair<callback_t, callback_t>(std::move(resolve), std::move(reject));
+        auto& r = resolver;
+        val v{result};
+        delete callbacks;
+        r.reject(v);
+      })));
 
-      js_routine(delete_me->first, delete_me->second, input_vals);
+      js_routine(*callbacks->resolve, *callbacks->reject, input_vals);
     });
   };
 
diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 70a7568..2454a01 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -86,8 +86,11 @@ namespace nbdl::webui::detail
       {
         Module.NBDL_DETAIL_JS_SET(
           $0
-        , function(event)
+        , function handler(event)
           {
+            // nothing to call when the receiver is gone
+            if (Module.NBDL_DETAIL_JS_GET($0) !== handler) return;
+
             if (event && event.type === 'submit')
             {
               event.preventDefault();
-- 
2.43.0


From 87c653cd47f4414097a9a3e6b2ce2d36dc754226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 30/38] fix: refuse numbers in routes that do not fit their
 member

---
 include/nbdl/webui/route_map.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 56f50b1..4759e0f 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -21,6 +21,7 @@
 #include <boost/hana/unpack.hpp>
 #include <boost/hana/type.hpp>
 #include <iterator>
+#include <limits>
 #include <mpdef/pair.hpp>
 #include <string>
 #include <string_view>
@@ -49,18 +50,26 @@ namespace nbdl::webui
     }
 
     // zero is an invalid integral param
-    inline std::size_t to_integral_param(std::string_view param)
+    inline unsigned long long to_integral_param(
+      std::string_view param
+    , unsigned long long max
+    )
     {
-      std::size_t result = 0;
+      unsigned long long result = 0;
 
       for (char c : param)
       {
-        std::size_t digit_value = c - '0';
+        unsigned long long digit_value = c - '0';
         if (digit_value > 9)
         {
           // invalid character
           return 0;
         }
+        if (digit_value > max || result > (max - digit_value) / 10)
+        {
+          // too large
+          return 0;
+        }
         result *= 10;
         result += digit_value;
       }
@@ -83,7 +92,7 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = to_integral_param(param);
+        m = to_integral_param(param, std::numeric_limits<Member>::max());
         return m != 0;
       };
     };
-- 
2.43.0


From 38100e5959eafcf129de12d2ca42a5a13703fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 31/38] fix: escape text in routes so that it survives the
 address

---
 include/nbdl/webui/route_map.hpp | 51 ++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 4759e0f..4121dfd 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -35,13 +35,60 @@ namespace nbdl::webui
 
   namespace detail
   {
+    // escapes what would end the param in the path of a URL
+    inline void append_escaped(std::string& s, std::string_view param)
+    {
+      constexpr char const* digits = "0123456789ABCDEF";
+      for (unsigned char c : param)
+      {
+        if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
+          || std::string_view("-_.!~*'()").find(c) != std::string_view::npos)
+        {
+          s += c;
+        }
+        else
+        {
+          s += '%';
+          s += digits[c >> 4];
+          s += digits[c & 15];
+        }
+      }
+    }
+
+    inline std::string unescape(std::string_view param)
+    {
+      auto digit = [](char c) -> int
+      {
+        return c >= '0' && c <= '9' ? c - '0'
+             : c >= 'a' && c <= 'f' ? c - 'a' + 10
+             : c >= 'A' && c <= 'F' ? c - 'A' + 10
+             : -1;
+      };
+
+      std::string result{};
+      for (std::size_t i = 0; i < param.size(); i++)
+      {
+        if (param[i] == '%' && i + 2 < param.size()
+          && digit(param[i + 1]) >= 0 && digit(param[i + 2]) >= 0)
+        {
+          result += static_cast<char>(digit(param[i + 1]) * 16 + digit(param[i + 2]));
+          i += 2;
+        }
+        else
+        {
+          result += param[i];
+        }
+      }
+      return result;
+    }
+
     template <typename X>
     void append_route_param(std::string& s, X&& x)
     {
       s += '/';
       if constexpr(nbdl::String<X>)
       {
-        s += std::forward<X>(x);
+        append_escaped(s, std::string_view(x.data(), x.size()));
       }
       else
       {
@@ -82,7 +129,7 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = param;
+        m = unescape(param);
         return m.size() > 0;
       };
     };
-- 
2.43.0


From e43ffd9be998d6d750ff6d523639133fb3c711b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 32/38] fix: take a location without the prefix for no route

---
 include/nbdl/webui/nav_route.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index d56e9b8..52439a9 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -77,19 +77,22 @@ namespace nbdl::webui
 
       void receive_event()
       {
+        // a location without the prefix is no route
         std::size_t length = EM_ASM_INT({
-          return window.location.pathname.length
-                 - Module.NBDL_WEBUI_NAV_URI_PREFIX.length;
+          var prefix = Module.NBDL_WEBUI_NAV_URI_PREFIX;
+          return window.location.pathname.startsWith(prefix)
+               ? window.location.pathname.length - prefix.length
+               : 0;
         }, 0);
         nbdl::string route(length, '\0');
 
         EM_ASM_(
           {
-            var s = window.location.pathname.slice(
-              Module.NBDL_WEBUI_NAV_URI_PREFIX.length);
-            stringToAscii(s, $0);
+            var path = window.location.pathname;
+            stringToAscii(path.slice(path.length - $1), $0);
           }
         , route.data()
+        , length
         );
 
         nbdl::apply_message(
-- 
2.43.0


From 09a5e2a65e5c378f2c4a3e1eb6a37514af3c7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:41 +0000
Subject: [PATCH 33/38] fix: show a route that was set as text

---
 include/nbdl/webui/nav_route.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 52439a9..8fb323f 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -183,8 +183,9 @@ namespace nbdl
             }
           )
         );
-        p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
       }
+      // browsers do not report locations set by the page itself
+      p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
     }
   };
 
-- 
2.43.0


From 27ce2eed12e18259c37bff13d4a6ef27e0249661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 34/38] fix: ignore the history once the producer of routes is
 gone

---
 include/nbdl/webui/nav_route.hpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 8fb323f..6e0a2a2 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -60,18 +60,12 @@ namespace nbdl::webui
         : context(c)
         , vals(new event_receiver_vals{})
       {
-        EM_ASM_(
+        EM_ASM(
           {
             if (!Module.NBDL_WEBUI_NAV_URI_PREFIX) {
               Module.NBDL_WEBUI_NAV_URI_PREFIX = "";
             }
-            window.onpopstate = function()
-            {
-              // call the handler
-              Module.NBDL_DETAIL_JS_GET($0)();
-            };
           }
-        , vals->handler.handle()
         );
       }
 
@@ -106,6 +100,22 @@ namespace nbdl::webui
         );
       }
     };
+
+    template <typename Context>
+    std::unique_ptr<event_receiver> make_popstate_event_receiver(Context context)
+    {
+      auto receiver = make_event_receiver(popstate_event_receiver<Context>{context});
+
+      // the handler knows when the receiver is gone
+      EM_ASM_(
+        {
+          window.onpopstate = Module.NBDL_DETAIL_JS_GET($0);
+        }
+      , receiver->virtual_(handler_s)(*receiver).handle()
+      );
+
+      return receiver;
+    }
   }
 
   template <typename Context, typename RouteMap>
@@ -119,12 +129,12 @@ namespace nbdl::webui
 
     nav_route_producer_impl(actor_initializer<Context, hana_tag> a)
       : context(a.context)
-      , receiver(detail::make_event_receiver(detail::popstate_event_receiver<Context>{a.context}))
+      , receiver(detail::make_popstate_event_receiver(a.context))
     { }
 
     nav_route_producer_impl(actor_initializer<Context, hana::type<void>> a)
       : context(a.context)
-      , receiver(detail::make_event_receiver(detail::popstate_event_receiver<Context>{a.context}))
+      , receiver(detail::make_popstate_event_receiver(a.context))
     { }
   };
 
-- 
2.43.0


From 521b14adf6bac8a453a8dc4f56087732106a9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 35/38] fix: give the foreign keys to every element of a
 container, not only to the first

---
 include/nbdl/sql_db/insert.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/insert.hpp b/include/nbdl/sql_db/insert.hpp
index bd1d819..1837d1e 100644
--- a/include/nbdl/sql_db/insert.hpp
+++ b/include/nbdl/sql_db/insert.hpp
@@ -124,10 +124,11 @@ namespace nbdl::sql_db
     {
       for (auto&& x : std::forward<Container>(c))
       {
+        // every element needs the keys
         insert(
           db_insert
         , std::forward<decltype(x)>(x)
-        , std::forward<ForeignKeys>(keys)
+        , keys
         );
       }
     };
-- 
2.43.0


From ac6d1cb3668bb0aec6ae719e36c7778a894e56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 36/38] fix: join the criteria of SELECT and UPDATE statements
 with AND

---
 include/nbdl/sql_db/statement/select.hpp |  2 +-
 include/nbdl/sql_db/statement/update.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/sql_db/statement/select.hpp b/include/nbdl/sql_db/statement/select.hpp
index fb03913..2eb5ff7 100644
--- a/include/nbdl/sql_db/statement/select.hpp
+++ b/include/nbdl/sql_db/statement/select.hpp
@@ -33,7 +33,7 @@ namespace nbdl::sql_db::statement
     {
       return decltype(detail::string_sum(
         std::declval<Pair1>()
-      , detail::string_sum("=?,"_s, std::declval<PairN>())...
+      , detail::string_sum("=? AND "_s, std::declval<PairN>())...
       , "=?"_s
       )){};
     };
diff --git a/include/nbdl/sql_db/statement/update.hpp b/include/nbdl/sql_db/statement/update.hpp
index b574943..f5aa507 100644
--- a/include/nbdl/sql_db/statement/update.hpp
+++ b/include/nbdl/sql_db/statement/update.hpp
@@ -43,6 +43,16 @@ namespace nbdl::sql_db::statement
       , "\"=?"_s
       )){};
     };
+
+    template <typename Pair1, typename ...PairN>
+    constexpr auto criteria_list(hana::basic_tuple<Pair1, PairN...> const&)
+    {
+      return decltype(detail::string_sum(
+        detail::string_sum("\""_s, hana::first(std::declval<Pair1>()))
+      , detail::string_sum("\"=? AND \""_s, hana::first(std::declval<PairN>()))...
+      , "\"=?"_s
+      )){};
+    };
   }
 
   constexpr auto update = [](auto table_name, auto&& columns_, auto&& keys_)
@@ -56,7 +66,7 @@ namespace nbdl::sql_db::statement
       "UPDATE \""_s, table_name
     , "\" SET "_s
     , update_detail::column_value_list(columns)
-    , " WHERE "_s, update_detail::column_value_list(keys)
+    , " WHERE "_s, update_detail::criteria_list(keys)
     , " LIMIT 1;"_s
     );
 
-- 
2.43.0


From 8ee4003b15d6c4cb04797a81d03cee2524c8e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:47 +0000
Subject: [PATCH 37/38] fix: let entities without nested entities be selected

---
 include/nbdl/sql_db/detail/string_sum.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/sql_db/detail/string_sum.hpp b/include/nbdl/sql_db/detail/string_sum.hpp
index c019491..9ca6ed3 100644
--- a/include/nbdl/sql_db/detail/string_sum.hpp
+++ b/include/nbdl/sql_db/detail/string_sum.hpp
@@ -22,12 +22,24 @@ namespace nbdl::sql_db::detail
     return hana::sum<hana::string_tag>(mpdef::make_list(xs...));
   };
 
-  template <typename Delimeter = hana::string<' '>>
-  constexpr auto string_sum_join = [](auto x1, auto ...xs)
+  template <typename Delimeter>
+  struct string_sum_join_fn
   {
-    return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    constexpr auto operator()() const
+    {
+      return hana::string<>{};
+    }
+
+    template <typename X1, typename ...Xs>
+    constexpr auto operator()(X1 x1, Xs ...xs) const
+    {
+      return string_sum(x1, hana::plus(Delimeter{}, xs)...);
+    }
   };
 
+  template <typename Delimeter = hana::string<' '>>
+  constexpr string_sum_join_fn<Delimeter> string_sum_join{};
+
   using identifier_quote_string = hana::string<'"'>; // SQL implementation specific (ANSI)
 
   template <typename Identifier>
-- 
2.43.0


From 87e50ee512500bc74f5b2027195b020df429adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 38/38] fix: insert entities that have no columns

---
 include/nbdl/sql_db/statement/insert.hpp | 25 +++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/sql_db/statement/insert.hpp b/include/nbdl/sql_db/statement/insert.hpp
index cc0cdab..51fe8f9 100644
--- a/include/nbdl/sql_db/statement/insert.hpp
+++ b/include/nbdl/sql_db/statement/insert.hpp
@@ -53,6 +53,24 @@ namespace nbdl::sql_db::statement
         >{}
       );
     };
+
+    // a row of default values when there are no columns
+    constexpr auto values_clause(hana::basic_tuple<>)
+    {
+      return "\" DEFAULT VALUES"_s;
+    }
+
+    template <typename Name1, typename ...NameN>
+    constexpr auto values_clause(hana::basic_tuple<Name1, NameN...> names)
+    {
+      return detail::string_sum(
+        "\" ("_s
+      , column_name_list(names)
+      , ") VALUES ("_s
+      , placeholder_list(hana::size_c<sizeof...(NameN) + 1>)
+      , ")"_s
+      );
+    }
   }
 
   constexpr auto insert = [](auto table_name, auto&& columns)
@@ -60,11 +78,8 @@ namespace nbdl::sql_db::statement
     // columns is a hana::map with pair<name, column>
     auto stmt = detail::string_sum(
       "INSERT INTO \""_s, table_name
-    , "\" ("_s
-    , insert_detail::column_name_list(hana::keys(columns))
-    , ") VALUES ("_s
-    , insert_detail::placeholder_list(hana::size(columns))
-    , ");"_s
+    , insert_detail::values_clause(hana::keys(columns))
+    , ";"_s
     );
 
     return hana::make_pair(
-- 
2.43.0

