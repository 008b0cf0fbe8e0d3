From f4663494174f61a7c0b83d7a573b5c8f66223ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 01/38] fix: make worker pool destruction terminate in every
 interleaving

A worker that had not reached the condition wait yet when the pool was
being destroyed missed the notification and waited forever.  Besides, the
destructor and the workers took the two locks in opposite order.
---
 libiqxmlrpc/executor.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..b9d9aeb 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -99,6 +99,10 @@ void Pool_executor_factory::Pool_thread::operator ()()
 
     if (pool->req_queue.empty())
     {
+      // The wake-up may have been sent before this thread got here.
+      if (pool->is_being_destructed())
+        return;
+
       pool->req_queue_cond.wait(lk);
 
       if (pool->is_being_destructed())
@@ -170,9 +174,13 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
+  // Threads take destructor_lock while holding req_queue_lock,
+  // so these locks must not be nested here.
   scoped_lock lk_(req_queue_lock);
   req_queue_cond.notify_all();
 }
-- 
2.43.0


From 656eee33242117992b53c484d137d7ca83b8459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 02/38] fix: do not reuse a client connection after a failed
 call

The kept connection stayed in place after a timeout or a network error, so
the next call could get the late response to the failed one, or fail over
and over on a dead socket.
---
 libiqxmlrpc/client.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..56b9791 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -137,7 +137,15 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try {
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... )
+  {
+    // A late or partial response must not be taken for the next one.
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From 30e63dd5f10fc79503c91e76ad238b599bdf6a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 03/38] fix: read once per readiness event in the HTTP client

When exactly a full buffer had been read the client read again at once and
took the "would block" error for a broken connection.
---
 libiqxmlrpc/http_client.cc  | 11 +++++------
 libiqxmlrpc/https_client.cc | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..33ffdd2 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,12 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..1fb8393 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -96,13 +96,12 @@ void Https_proxy_client_connection::handle_output( bool& )
 
 void Https_proxy_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
+
+  resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
 
   if( resp_packet )
   {
-- 
2.43.0


From 7fda6bcc23dc40f38775c6585b610e65f7c2e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 04/38] fix: send 100-continue for every request of a
 persistent connection

Only the first request that announced it got the interim response.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..7ce68f2 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -412,6 +412,7 @@ void Packet_reader::clear()
   header_cache.erase();
   constructed = false;
   total_sz = 0;
+  continue_sent_ = false;
 }
 
 void Packet_reader::check_sz( size_t sz )
-- 
2.43.0


From b3a5e22a97c9d81fa512f1667f0b1374873266e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 05/38] fix: end the HTTP header at its first blank line

A header with bare LF line ends was cut at a CRLF blank line inside the body
when both arrived together.
---
 libiqxmlrpc/http.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 7ce68f2..e37e50f 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -437,8 +437,11 @@ bool Packet_reader::read_header( const std::string& s )
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  iterator_range<std::string::iterator> j = find_first(header_cache, "\n\n");
+
+  // The body may contain the other kind of blank line.
+  if( i.begin() == i.end() || (j.begin() != j.end() && j.begin() < i.begin()) )
+    i = j;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From 322da8d39536226458d825648a2b9d729124b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 06/38] fix: do not build SSL exception text from a null
 pointer

ERR_reason_error_string() has no text for SSL_ERROR_WANT_READ and the like,
which terminated the process on any incomplete handshake.
---
 libiqxmlrpc/ssl_lib.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..929261e 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,20 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+// There is no text for codes that do not come from the error queue.
+std::string reason_string( unsigned long err )
+{
+  const char* s = ERR_reason_error_string(err);
+  return s ? s : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +281,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From d4833a44f603d6c2abf80454bda5f6c147487c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 07/38] fix: close connections refused by the firewall

They stayed open forever.  Also a failure to accept a connection or to send
the refusal message does not end the serving loop any more.
---
 libiqxmlrpc/acceptor.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..1ace9a3 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -39,7 +39,13 @@ void Acceptor::set_firewall( iqnet::Firewall_base* fw )
 
 void Acceptor::handle_input( bool& )
 {
-  accept();
+  try {
+    accept();
+  }
+  catch( const network_error& )
+  {
+    // A peer that has gone already must not stop the server.
+  }
 }
 
 
@@ -64,6 +70,7 @@ void Acceptor::accept()
       new_sock.shutdown();
     }
 
+    new_sock.close();
     return;
   }
 
-- 
2.43.0


From 9dcd2ef6ea3bb6fdd889a2e2b0d4f13a76bc9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 08/38] fix: close the sockets of the reactor interrupter

Every server object leaked two descriptors.
---
 libiqxmlrpc/reactor_interrupter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..2045008 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -42,7 +42,7 @@ private:
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
-  ~Impl() {}
+  ~Impl() { client_.close(); }
 
   void make_interrupt();
 
@@ -62,6 +62,7 @@ Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
   Inet_addr srv_addr(srv.get_addr());
   client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
   Socket srv_conn(srv.accept());
+  srv.close();
 
   server_.reset(new Interrupter_connection(reactor, srv_conn));
 }
-- 
2.43.0


From 7308fcf8cc9e593439fae683f578d255c5a6a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 09/38] fix: close the socket when a connection attempt fails
 at once

---
 libiqxmlrpc/connector.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..a1a1e43 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -53,7 +53,16 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
+  bool done = false;
+
+  try {
+    done = connector.sock.connect( peer_addr );
+  }
+  catch( ... )
+  {
+    connector.sock.close();
+    throw;
+  }
 
   if (done)
     return create_connection( connector.sock );
-- 
2.43.0


From a3d4ab89e96b18abc5ed152ad37e5d36912ae8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:14:56 +0000
Subject: [PATCH 10/38] fix: free the member value in Struct::erase()

---
 libiqxmlrpc/value_type.cc | 12 ++++++++++++
 libiqxmlrpc/value_type.h  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..ee90aa9 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -295,6 +295,18 @@ Value& Struct::operator []( const std::string& f )
 }
 
 
+void Struct::erase( const std::string& key )
+{
+  iterator i = values.find(key);
+
+  if (i != values.end())
+  {
+    delete i->second;
+    values.erase(i);
+  }
+}
+
+
 void Struct::clear()
 {
   util::delete_ptrs(values.begin(), values.end(),
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index e6650be..9e2f5fb 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -249,7 +249,7 @@ public:
   const_iterator find( const std::string& key ) const { return values.find(key); }
   iterator find( const std::string& key ) { return values.find(key); }
 
-  void erase( const std::string& key ) { values.erase(key); }
+  void erase( const std::string& key );
 };
 
 #ifdef _MSC_VER
-- 
2.43.0


From 4f2f7013bae974bea0f88b87b0e5b1281e2bc878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:17 +0000
Subject: [PATCH 11/38] fix: free the replaced factory when a method is
 registered again

---
 libiqxmlrpc/dispatcher_manager.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/dispatcher_manager.cc b/libiqxmlrpc/dispatcher_manager.cc
index 1794be5..1537ccb 100644
--- a/libiqxmlrpc/dispatcher_manager.cc
+++ b/libiqxmlrpc/dispatcher_manager.cc
@@ -41,7 +41,12 @@ Default_method_dispatcher::~Default_method_dispatcher()
 void Default_method_dispatcher::register_method
   ( const std::string& name, Method_factory_base* fb )
 {
-  fs[name] = fb;
+  Method_factory_base*& f = fs[name];
+
+  if (f != fb)
+    delete f;
+
+  f = fb;
 }
 
 Method* Default_method_dispatcher::do_create_method(const std::string& name)
-- 
2.43.0


From b25a6cbc9e47af257eb044d5af70c31be74576f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:17 +0000
Subject: [PATCH 12/38] fix: keep the other event armed when one is
 unregistered

Unregistering a handler for input or output dropped it for both.  The HTTP
server connection relied on that to cancel a pending interim response, so
it now asks for it explicitly.
---
 libiqxmlrpc/http_server.cc | 2 +-
 libiqxmlrpc/reactor_impl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..755eea1 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -91,7 +91,7 @@ void Http_server_connection::handle_input( bool& terminate )
     if( !packet )
       return;
 
-    reactor->unregister_handler( this, Reactor_base::INPUT );
+    reactor->unregister_handler( this );
     server->schedule_execute( packet, this );
   }
   catch( const http::Error_response& e )
diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..1eafbf0 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -133,7 +133,7 @@ void Reactor<Lock>::unregister_handler( Event_handler* eh, Event_mask mask )
 
   if( i != end() )
   {
-    int newmask = (i->mask &= !mask);
+    int newmask = (i->mask &= ~mask);
 
     if( !newmask )
     {
-- 
2.43.0


From 4f204c7bd9adac2772d4b73471aaa6b5be538b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:17 +0000
Subject: [PATCH 13/38] fix: skip events of handlers unregistered during
 dispatch

A handler that unregisters another one whose event is pending in the same
round made the reactor dereference a null pointer.
---
 libiqxmlrpc/reactor_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 1eafbf0..783b45c 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -210,7 +210,10 @@ void Reactor<Lock>::invoke_event_handler( Reactor_base::HandlerState& hs )
   bool terminate = false;
 
   Event_handler* handler = find_handler(hs.fd);
-  assert(handler);
+
+  // It may have been unregistered by a handler called before.
+  if( !handler )
+    return;
 
   if( handler->catch_in_reactor() )
     invoke_servers_handler( handler, hs, terminate );
-- 
2.43.0


From 8daccb2941909fc1bdd394f08f8048ce3e694598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:17 +0000
Subject: [PATCH 14/38] fix: deliver HTTP error responses to peers that stop
 sending

The connection stayed armed for input after a refused request, so the end
of stream or further bytes dropped it before the response was written.
---
 libiqxmlrpc/http_server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 755eea1..11c8100 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -98,6 +98,7 @@ void Http_server_connection::handle_input( bool& terminate )
   {
     // Close connection after sending HTTP error response
     keep_alive = false;
+    reactor->unregister_handler( this );
     schedule_response( new http::Packet(e) );
   }
 }
-- 
2.43.0


From 348df033ea5c6465323b44950ea96caaf554e397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:43 +0000
Subject: [PATCH 15/38] fix: parse empty struct member names at any level

Reading an empty name consumed its end tag without telling the builder,
which lost track of the nesting and rejected valid documents.
---
 libiqxmlrpc/parser2.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..5fc463f 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -199,15 +199,25 @@ public:
   std::string
   read_data()
   {
-    if (!curr.is_text && !curr.element_end)
+    if (curr.is_text)
+      return to_string(xmlTextReaderValue(reader));
+
+    // Collect all the text up to the end tag and leave the tag to the builder.
+    std::string data;
+    while (!curr.element_end)
     {
       read();
-      if (!curr.is_text && !curr.element_end) {
+      if (curr.done || curr.element_begin) {
         std::string err = "text is expected at " + get_context();
         throw XML_RPC_violation(err);
       }
+
+      if (curr.is_text)
+        data += to_string(xmlTextReaderValue(reader));
     }
-    return to_string(xmlTextReaderValue(reader));
+
+    pushed_back = true;
+    return data;
   }
 
   std::string
-- 
2.43.0


From 493c8ebfb83ee43f5517c3468d260b7539b22821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:43 +0000
Subject: [PATCH 16/38] fix: do not lose white space, CDATA and split text in
 strings

Strings consisting of white space only, CDATA sections and all but the last
piece of a text interrupted by a comment were dropped by the parser.
---
 libiqxmlrpc/parser2.cc      |  4 +++-
 libiqxmlrpc/value_parser.cc | 25 ++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 5fc463f..bf0d63e 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -135,7 +135,9 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT ||
+              type == XML_READER_TYPE_CDATA ||
+              type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..18219ff 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -133,7 +133,8 @@ enum ValueBuilderState {
   TIME,
   STRUCT,
   ARRAY,
-  NIL
+  NIL,
+  DONE
 };
 
 ValueBuilder::ValueBuilder(Parser& parser):
@@ -185,8 +186,10 @@ ValueBuilder::do_visit_element(const std::string& tagname)
 void
 ValueBuilder::do_visit_element_end(const std::string&)
 {
-  if (retval.get())
+  if (retval.get()) {
+    state_.set_state(DONE);
     return;
+  }
 
   std::auto_ptr<Int> default_int(Value::get_default_int());
   std::auto_ptr<Int64> default_int64(Value::get_default_int64());
@@ -218,6 +221,8 @@ ValueBuilder::do_visit_element_end(const std::string&)
   default:
     throw XML_RPC_violation(parser_.context());
   }
+
+  state_.set_state(DONE);
 }
 
 void
@@ -225,9 +230,23 @@ ValueBuilder::do_visit_text(const std::string& text)
 {
   using boost::lexical_cast;
 
+  // White space is significant inside of strings only.
+  if (state_.get_state() != STRING && text.find_first_not_of(" \t\r\n") == std::string::npos)
+    return;
+
+  if (retval.get()) {
+    // Text may be split by comments and CDATA sections.
+    String* s = dynamic_cast<String*>(retval.get());
+    if (!s || state_.get_state() != STRING)
+      throw XML_RPC_violation(parser_.context());
+
+    s->value() += text;
+    return;
+  }
+
   switch (state_.get_state()) {
   case VALUE:
-    want_exit();
+    state_.set_state(STRING);
   case STRING:
     retval.reset(new String(text));
     break;
-- 
2.43.0


From 867baf4ede18fd5afb97d0c042b9e916adcb1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:17 +0000
Subject: [PATCH 17/38] fix: reject documents nested too deep for recursive
 parsing

A small request could overflow the stack of the server.
---
 libiqxmlrpc/parser2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index bf0d63e..78b8e9b 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -98,6 +98,8 @@ BuilderBase::do_visit_text(const std::string&)
 //
 
 class Parser::Impl {
+  static const int max_depth = 3000;
+
 public:
   Impl(const std::string& str):
     buf(str),
@@ -166,6 +168,10 @@ public:
     }
 
     if (code > 0) {
+      // Values are built recursively.
+      if (depth() > max_depth)
+        throw Parse_error("document is nested too deep");
+
       curr = ParseStep(node_type(), reader);
     }
 
-- 
2.43.0


From 544709217655e1bdadf346ce48f722c4404b6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:12 +0000
Subject: [PATCH 18/38] fix: do not drop the rest of a partially sent interim
 response

The final response replaced whatever was left of it in the buffer.
---
 libiqxmlrpc/http_server.cc | 8 +++-----
 libiqxmlrpc/server_conn.cc | 5 +++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 11c8100..0c4f455 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -108,7 +108,9 @@ void Http_server_connection::handle_output( bool& terminate )
 {
   size_t sz = send( response.c_str(), response.length() );
 
-  if( sz == response.length() )
+  response.erase( 0, sz );
+
+  if( response.empty() )
   {
     if( keep_alive )
     {
@@ -117,11 +119,7 @@ void Http_server_connection::handle_output( bool& terminate )
     }
     else
       terminate = true;
-
-    return;
   }
-
-  response.erase( 0, sz );
 }
 
 
diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index 83dd8ad..85587a7 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -33,7 +33,7 @@ http::Packet* Server_connection::read_request( const std::string& s )
     if( r ) {
       keep_alive = r->header()->conn_keep_alive();
     } else if( preader.expect_continue() ) {
-      response = "HTTP/1.1 100\r\n\r\n";
+      response += "HTTP/1.1 100\r\n\r\n";
       keep_alive = true;
       do_schedule_response();
       preader.set_continue_sent();
@@ -52,7 +52,8 @@ void Server_connection::schedule_response( http::Packet* pkt )
 {
   std::auto_ptr<http::Packet> p(pkt);
   p->set_keep_alive( keep_alive );
-  response = p->dump();
+  // an interim response may be still in the buffer
+  response += p->dump();
   do_schedule_response();
 }
 
-- 
2.43.0


From 485a70885d370f291d48e23dfd1f9549b18ae179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:33 +0000
Subject: [PATCH 19/38] fix: close a refused connection when its peer is
 already gone

Sending the firewall's message fails when the peer has reset the
connection.  The accepted socket was left open in that case.
---
 libiqxmlrpc/acceptor.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 1ace9a3..f9d7d0a 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -61,13 +61,21 @@ void Acceptor::accept()
 
   if( firewall && !firewall->grant( new_sock.get_peer_addr() ) )
   {
-    std::string msg = firewall->message();
-
-    if (!msg.empty())
+    try
+    {
+      std::string msg = firewall->message();
+
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
+    }
+    catch( ... )
     {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
+      new_sock.close();
+      throw;
     }
 
     new_sock.close();
-- 
2.43.0


From a99905fc5f35e4b8e584ff91a8692695178d1775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:32 +0000
Subject: [PATCH 20/38] fix: read the end tags of nil values inside of their
 builder

A <nil/> value left its end tags to the enclosing builder, which then
ended early: trailing parameters were lost, arrays and structs with more
than one nil were rejected and truncated documents accepted.
---
 libiqxmlrpc/value_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 18219ff..cd845ac 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -171,8 +171,9 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     break;
 
   case NIL:
+    // the end tags are left to this builder as those of <i4>...</i4>, etc...
     retval.reset(new Nil());
-    break;
+    return;
 
   default:
     // wait for text within <i4>...</i4>, etc...
-- 
2.43.0


From c3e839f2edf2aae743fd394b75e5289246222933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:32 +0000
Subject: [PATCH 21/38] fix: do not put broken UTF-8 of a request into the
 fault response

---
 libiqxmlrpc/parser2.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 78b8e9b..e71070b 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -164,7 +164,10 @@ public:
 
     if (code < 0) {
       xmlErrorPtr err = xmlGetLastError();
-      throw Parse_error(err ? err->message : "unknown parsing error");
+      const char* msg = err ? err->message : 0;
+      // The text may quote the document and goes to the peer as it is.
+      bool valid = msg && xmlCheckUTF8(reinterpret_cast<const unsigned char*>(msg));
+      throw Parse_error(valid ? msg : "unknown parsing error");
     }
 
     if (code > 0) {
-- 
2.43.0


From f15ce7c743d2dc0ea94251f53f8f85261aac76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:25:24 +0000
Subject: [PATCH 22/38] fix: report the status of an error response that has no
 Content-Length

---
 libiqxmlrpc/http.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index e37e50f..8e46db2 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -351,6 +351,10 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
 
   if (resp_line.size() > 2)
     phrase_ = resp_line[2];
+
+  // The status of an error matters more than its body.
+  if (code_ != 200)
+    set_option_default(names::content_length, "0");
 }
 
 Response_header::Response_header( int c, const std::string& p ):
-- 
2.43.0


From 4151f526c904a6fc30a22da0735dc79a396664e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:36 +0000
Subject: [PATCH 23/38] fix: drop the kept connection when a proxy is set

---
 libiqxmlrpc/client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index 56b9791..24f7cb9 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -98,6 +98,7 @@ Client_base::~Client_base()
 void Client_base::set_proxy( const iqnet::Inet_addr& addr )
 {
   do_set_proxy( addr );
+  impl_->conn_cache.reset();
 }
 
 void Client_base::set_timeout( int seconds )
-- 
2.43.0


From eb39a56b5b5d45215a119f9cf8225b23c027bc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:47 +0000
Subject: [PATCH 24/38] fix: reject base64 text with characters after its
 padding

---
 libiqxmlrpc/value_type.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index ee90aa9..2e71aa8 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -459,7 +459,7 @@ inline void Binary_data::decode_four( const std::string& four )
   char c3 = four[2];
   char c4 = four[3];
 
-  if( c1 == '=' || c2 == '=' )
+  if( c1 == '=' || c2 == '=' || (c3 == '=' && c4 != '=') )
     throw Malformed_base64();
 
   try {
@@ -483,6 +483,7 @@ void Binary_data::decode()
   const char* d = base64.data();
   size_t dsz = base64.length();
   std::string four;
+  bool padded = false;
 
   for( size_t i = 0; i < dsz; i++ )
   {
@@ -492,7 +493,12 @@ void Binary_data::decode()
     four += d[i];
     if( four.length() == 4 )
     {
+      // Nothing can follow the padding.
+      if( padded )
+        throw Malformed_base64();
+
       decode_four( four );
+      padded = four[3] == '=';
       four.erase();
     }
   }
-- 
2.43.0


From 5d7b15985fbd375d7b0341fdea1051dc97c88245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:47 +0000
Subject: [PATCH 25/38] fix: check every character of a dateTime.iso8601 text

---
 libiqxmlrpc/value_type.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 2e71aa8..51842f1 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -543,12 +543,15 @@ Date_time::Date_time( bool use_lt )
 
 Date_time::Date_time( const std::string& s )
 {
-  if( s.length() != 17 || s[8] != 'T' )
+  const std::string form( "ddddddddTdd:dd:dd" );
+  if( s.length() != form.length() )
     throw Malformed_iso8601();
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
-    throw Malformed_iso8601();
+  for( size_t i = 0; i < form.length(); i++ )
+  {
+    if( form[i] == 'd' ? !(s[i] >= '0' && s[i] <= '9') : s[i] != form[i] )
+      throw Malformed_iso8601();
+  }
 
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
   tm_.tm_mon  = atoi( s.substr(4, 2).c_str() ) - 1;
-- 
2.43.0


From f328651aa5f9e8c6eeb1c7b90264dbef3926e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:47 +0000
Subject: [PATCH 26/38] fix: do not leak the value of a struct member that ends
 badly

---
 libiqxmlrpc/value_parser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index cd845ac..66e82a9 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -19,8 +19,7 @@ class StructBuilder: public ValueBuilderBase {
 public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
-    state_(parser, NONE),
-    value_(0)
+    state_(parser, NONE)
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -49,8 +48,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -69,7 +69,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -77,7 +77,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
-- 
2.43.0


From 684df4564c71a46a45cda3df0d49e9dea469cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:01 +0000
Subject: [PATCH 27/38] fix: reject documents whose elements are nested wrong

---
 libiqxmlrpc/parser2.cc        | 44 ++++++++++++++++++++++++++++++++++-
 libiqxmlrpc/request_parser.cc |  7 ++++++
 libiqxmlrpc/request_parser.h  |  3 +++
 3 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index e71070b..487bd32 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -196,8 +196,47 @@ public:
   std::string
   tag_name()
   {
-    std::string rv = to_string(xmlTextReaderName(reader));
+    return local_name(to_string(xmlTextReaderName(reader)));
+  }
+
+  //! Tells whether current element may appear inside of its parent.
+  bool
+  is_nested_right()
+  {
+    static const char* const parents[][2] = {
+      { "params", "methodCall" },
+      { "params", "methodResponse" },
+      { "param",  "params" },
+      { "value",  "param" },
+      { "value",  "fault" },
+      { "value",  "data" },
+      { "value",  "member" },
+    };
+
+    xmlNodePtr n = xmlTextReaderCurrentNode(reader);
+    if (!n || !n->parent || n->parent->type != XML_ELEMENT_NODE)
+      return true;
+
+    const std::string tag = tag_name();
+    const std::string parent = local_name(reinterpret_cast<const char*>(n->parent->name));
+    bool known = false;
+
+    for (size_t i = 0; i < sizeof(parents) / sizeof(parents[0]); ++i) {
+      if (parents[i][0] != tag)
+        continue;
 
+      if (parents[i][1] == parent)
+        return true;
+
+      known = true;
+    }
+
+    return !known;
+  }
+
+  static std::string
+  local_name(std::string rv)
+  {
     size_t pos = rv.find_first_of(":");
     if (pos != std::string::npos)
     {
@@ -254,6 +293,9 @@ Parser::parse(BuilderBase& builder)
 {
   for (Impl::ParseStep p = impl_->read(); !p.done; p = impl_->read()) {
     if (p.element_begin) {
+      if (!impl_->is_nested_right())
+        throw XML_RPC_violation("unexpected tag at " + context());
+
       builder.visit_element(impl_->tag_name());
 
     } else if (p.element_end) {
diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 4968b9d..34f85dd 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -48,6 +48,13 @@ RequestBuilder::do_visit_element(const std::string& tagname)
   }
 }
 
+void
+RequestBuilder::do_visit_element_end(const std::string& tagname)
+{
+  if (tagname == "param" && state_.get_state() != VALUE)
+    throw XML_RPC_violation(parser_.context());
+}
+
 Request*
 RequestBuilder::get()
 {
diff --git a/libiqxmlrpc/request_parser.h b/libiqxmlrpc/request_parser.h
index b07f9bb..6b84ba9 100644
--- a/libiqxmlrpc/request_parser.h
+++ b/libiqxmlrpc/request_parser.h
@@ -21,6 +21,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   StateMachine state_;
   boost::optional<std::string> method_name_;
   Param_list params_;
-- 
2.43.0


From 77edde3b3556ff65148a6d8c246998d4a998bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:38:22 +0000
Subject: [PATCH 28/38] fix: do not leak the default of an empty i8 element

---
 libiqxmlrpc/value_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 66e82a9..37a111d 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -210,7 +210,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
-- 
2.43.0


From 924163efbfc875681d83eead46bc88a997428a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:43 +0000
Subject: [PATCH 29/38] fix: clear the OpenSSL error queue before each
 operation

SSL_get_error() looks at the error queue of the thread.  Entries left by
one connection made it report a failure for the next operation of another
one, which was closed although nothing was wrong with it.
---
 libiqxmlrpc/ssl_connection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 8eb4624..7b1e0cc 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -44,6 +44,7 @@ void ssl::Connection::post_connect()
 void ssl::Connection::ssl_accept()
 {
   ssl_ctx->prepare_verify(ssl, true);
+  ERR_clear_error();
   int ret = SSL_accept( ssl );
 
   if( ret != 1 )
@@ -54,6 +55,7 @@ void ssl::Connection::ssl_accept()
 void ssl::Connection::ssl_connect()
 {
   ssl_ctx->prepare_verify(ssl, false);
+  ERR_clear_error();
   int ret = SSL_connect( ssl );
 
   if( ret != 1 )
@@ -66,6 +68,7 @@ void ssl::Connection::shutdown()
   if( shutdown_recved() && shutdown_sent() )
     return;
 
+  ERR_clear_error();
   int ret = SSL_shutdown( ssl );
   switch( ret )
   {
@@ -85,6 +88,7 @@ void ssl::Connection::shutdown()
 
 size_t ssl::Connection::send( const char* data, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_write( ssl, data, static_cast<int>(len) );
 
   if( static_cast<size_t>(ret) != len )
@@ -96,6 +100,7 @@ size_t ssl::Connection::send( const char* data, size_t len )
 
 size_t ssl::Connection::recv( char* buf, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_read( ssl, buf, static_cast<int>(len) );
 
   if( ret <= 0 )
-- 
2.43.0


From 2c3b5487345dd8a9c53f69ba6eb5d3ec2f488521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:46 +0000
Subject: [PATCH 30/38] fix: let clients of a verifying TLS server try to
 resume sessions

With a verifier for client certificates and no session id context OpenSSL
ends the handshake of every client that offers an earlier session.  Such
clients get a full handshake now, so the verifier is asked each time.
---
 libiqxmlrpc/ssl_lib.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 929261e..2d587d7 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -240,6 +240,9 @@ Ctx::verify_client(bool require_certificate, ConnectionVerifier* v)
 {
   impl_->require_client_cert = require_certificate;
   impl_->client_verifier = v;
+
+  // Resumed sessions are not verified again, so there must be none.
+  SSL_CTX_set_session_cache_mode(impl_->ctx, SSL_SESS_CACHE_OFF);
 }
 
 void
@@ -254,6 +257,14 @@ Ctx::prepare_verify(SSL* ssl, bool server)
   if (v) {
     SSL_set_verify(ssl, mode, iqxmlrpc_SSL_verify);
     SSL_set_ex_data(ssl, iqxmlrpc_ssl_data_idx, (void*)v);
+
+    if (server) {
+      // Without an id context attempts to resume are fatal instead of
+      // leading to a full handshake.
+      static const unsigned char sid_ctx[] = "iqxmlrpc";
+      SSL_set_session_id_context(ssl, sid_ctx, sizeof(sid_ctx) - 1);
+      SSL_set_options(ssl, SSL_OP_NO_TICKET);
+    }
   } else {
     SSL_set_verify(ssl, mode, 0);
   }
-- 
2.43.0


From cdc23e259257f45cd4dc608e5b25350431bc7c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:05 +0000
Subject: [PATCH 31/38] fix: close TLS connections whose close alert cannot be
 delivered

When the peer had sent its close alert and then reset the connection, sending
our own alert failed after both directions were marked as shut down.
The result of reg_shutdown() was ignored there, so the connection was neither
registered with the reactor nor finished, and its socket stayed open.
---
 libiqxmlrpc/ssl_connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 7b1e0cc..ca72557 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -205,7 +205,7 @@ void ssl::Reaction_connection::switch_state( bool& terminate )
   catch( const ssl::connection_close& )
   {
 //    std::cout << "connection_close " << e.is_clean() << std::endl;
-    reg_shutdown();
+    terminate = reg_shutdown();
   }
 }
 
-- 
2.43.0


From 84ba503064e1f1f97e89560bd707342c4d2af9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:09 +0000
Subject: [PATCH 32/38] fix: count a stopper once however often it is
 registered

---
 libiqxmlrpc/reactor_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 783b45c..4eedcbe 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -108,15 +108,15 @@ void Reactor<Lock>::register_handler( Event_handler* eh, Event_mask mask )
 {
   scoped_lock lk(lock);
 
-  if (eh->is_stopper())
-    num_stoppers++;
-
   Socket::Handler fd = eh->get_handler();
 
   if( handlers.find(fd) == handlers.end() )
   {
     handlers_states.push_back( HandlerState(fd, mask) );
     handlers[fd] = eh;
+
+    if (eh->is_stopper())
+      num_stoppers++;
   }
   else
   {
-- 
2.43.0


From 4f5225687bdc038cec6d301a41867e297fe022bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:15 +0000
Subject: [PATCH 33/38] fix: keep the connection inside an HTTPS proxy tunnel
 and close its socket once

---
 libiqxmlrpc/https_client.cc | 19 +++++++++++++++----
 libiqxmlrpc/https_client.h  |  4 ++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 1fb8393..1d0152a 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -51,14 +51,25 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   sock.set_non_blocking( nb );
 }
 
+Https_proxy_client_connection::~Https_proxy_client_connection()
+{
+}
+
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
+  if( !https_conn )
+  {
+    setup_tunnel();
 
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.post_connect();
+    // From now on the socket belongs to the connection in the tunnel.
+    Socket tunnel( sock );
+    sock = Socket( -1, tunnel.get_peer_addr() );
+    https_conn.reset( new Https_client_connection(tunnel, non_blocking) );
+    https_conn->post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  https_conn->set_options( opts() );
+  return https_conn->do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..e9cc7e0 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -15,6 +15,8 @@
 namespace iqxmlrpc
 {
 
+class Https_client_connection;
+
 //! XML-RPC \b HTTPS PROXY client connection.
 //! DO NOT USE IT IN YOUR CODE.
 class LIBIQXMLRPC_API Https_proxy_client_connection:
@@ -23,6 +25,7 @@ class LIBIQXMLRPC_API Https_proxy_client_connection:
 {
 public:
   Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+  ~Https_proxy_client_connection();
 
   void handle_input( bool& );
   void handle_output( bool& );
@@ -34,6 +37,7 @@ protected:
 
   boost::scoped_ptr<iqnet::Reactor_base> reactor;
   boost::scoped_ptr<http::Packet> resp_packet;
+  boost::scoped_ptr<Https_client_connection> https_conn;
   bool non_blocking;
   std::string out_str;
 };
-- 
2.43.0


From 49c6f516475a2a0275b9fcb4ad32de044c2f41b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:59:01 +0000
Subject: [PATCH 34/38] fix: close the listening socket when it cannot be bound

The acceptor's constructor threw without closing the socket it had made,
so every failed attempt to serve on an occupied port leaked a descriptor.
---
 libiqxmlrpc/acceptor.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index f9d7d0a..59f3976 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -17,9 +17,17 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
-  reactor->register_handler( this, Reactor_base::INPUT );
+  try
+  {
+    sock.bind( bind_addr );
+    listen();
+    reactor->register_handler( this, Reactor_base::INPUT );
+  }
+  catch( ... )
+  {
+    sock.close();
+    throw;
+  }
 }
 
 
-- 
2.43.0


From e11ffbb2fe76734c71e849caacd5da0dbbbe1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:21:00 +0000
Subject: [PATCH 35/38] fix: do not remember an address whose host name could
 not be resolved

A failed lookup left a zeroed socket address behind. The next use of the
address took it for the result: a server listened on a random port of all
interfaces. Copies of an address share the result between threads, so it
is also guarded by a lock now.
---
 libiqxmlrpc/inet_addr.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..5558769 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -2,6 +2,7 @@
 //  Copyright (C) 2011 Anton Dedov
 
 #include <boost/optional.hpp>
+#include <boost/thread/mutex.hpp>
 #include "inet_addr.h"
 #include "net_except.h"
 
@@ -57,6 +58,7 @@ typedef struct sockaddr_in SystemSockAddrIn;
 
 struct Inet_addr::Impl {
   mutable boost::optional<SystemSockAddrIn> sa;
+  mutable boost::mutex sa_lock;
   std::string host;
   int port;
 
@@ -92,12 +94,13 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
+  SystemSockAddrIn addr = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
-  sa->sin_family = PF_INET;
-  sa->sin_port = htons(port);
-  memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
+  addr.sin_family = PF_INET;
+  addr.sin_port = htons(port);
+  memcpy( (char*)&(addr.sin_addr), (char*)hent->h_addr, hent->h_length );
+  sa = addr;
 }
 
 Inet_addr::Inet_addr( const std::string& host, int port ):
@@ -118,6 +121,8 @@ Inet_addr::Inet_addr( const SystemSockAddrIn& sa ):
 const SystemSockAddrIn*
 Inet_addr::get_sockaddr() const
 {
+  boost::mutex::scoped_lock lk(impl_->sa_lock);
+
   if (!impl_->sa) {
     impl_->init_sockaddr();
   }
-- 
2.43.0


From e34974345665d8cb4b1f72f904d2270d7b784705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:21:00 +0000
Subject: [PATCH 36/38] fix: keep log messages of concurrently running methods
 apart

Methods of a pool server write to the log from several threads.
---
 libiqxmlrpc/server.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 180eb55..98b9a91 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -3,6 +3,7 @@
 
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <memory>
 
 #include "server.h"
@@ -31,6 +32,7 @@ public:
 
   bool exit_flag;
   std::ostream* log;
+  boost::mutex  log_lock;
   size_t max_req_sz;
   http::Verification_level ver_level;
 
@@ -112,6 +114,7 @@ void Server::enable_introspection()
 
 void Server::log_errors( std::ostream* log_ )
 {
+  boost::mutex::scoped_lock lk(impl->log_lock);
   impl->log = log_;
 }
 
@@ -142,6 +145,8 @@ void Server::set_auth_plugin( const Auth_Plugin_base& ap )
 
 void Server::log_err_msg( const std::string& msg )
 {
+  boost::mutex::scoped_lock lk(impl->log_lock);
+
   if( impl->log )
     *impl->log << msg << std::endl;
 }
-- 
2.43.0


From b16a713fe13da03e6d53ba3b81241c0654ffd150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:47 +0000
Subject: [PATCH 37/38] fix: make the server's exit flag safe to set from other
 threads

The flag is set by set_exit_flag(), which other threads call, while the
thread in work() reads and clears it. Use an atomic instead of a plain bool.
---
 libiqxmlrpc/server.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 98b9a91..e013aa5 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -1,6 +1,7 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
+#include <boost/atomic.hpp>
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
 #include <boost/thread/mutex.hpp>
@@ -30,7 +31,7 @@ public:
   std::auto_ptr<iqnet::Acceptor>              acceptor;
   iqnet::Firewall_base* firewall;
 
-  bool exit_flag;
+  boost::atomic<bool> exit_flag; // set by other threads
   std::ostream* log;
   boost::mutex  log_lock;
   size_t max_req_sz;
-- 
2.43.0


From 66c800a1345765a13a74a3f5e5c348a6cd1a6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:51:47 +0000
Subject: [PATCH 38/38] fix: lock the reactor's table while looking at its size

handle_events() looked at the number of handlers without taking the lock
while threads of the pool register handlers.
---
 libiqxmlrpc/reactor_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 4eedcbe..ba75561 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -283,12 +283,16 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
+  scoped_lock lk(lock);
+
   if (handlers.empty())
     return false;
 
   if (handlers.size() - num_stoppers <= 0)
     throw No_handlers();
 
+  lk.unlock();
+
   handle_user_events();
   return handle_system_events(ms);
 }
-- 
2.43.0

