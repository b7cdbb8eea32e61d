From 321656039bb4e1ca5aa8c20bd62d8235470b4a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 01/17] fix: give MemoryParityError its protocol code 0x08

---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 5330b2e2c39c28b9db7fe1efa829975e2f661bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 02/17] fix: dispatch a message with an empty body as soon as
 it is complete

The parser only acted on it when the first bytes of the next message came in.
---
 lib/src/messages/mbap/MbapParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index c0f306e..679e82a 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -72,6 +72,12 @@ void MbapParser::find_body_size()
 
     m_num_bytes_to_read = length - 1;
     m_reading_body = true;
+
+    if(m_num_bytes_to_read == 0)
+    {
+        // The body is only the unit identifier, the message is already complete
+        send_data();
+    }
 }
 
 void MbapParser::send_data()
-- 
2.43.0


From f820e6163d8bd9b4823d2be78da4f83caaa32830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:00 +0000
Subject: [PATCH 03/17] fix: reject register responses whose byte count
 contradicts their size

---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..2caec3f 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the announced number of bytes was received
+    if(length != view.length())
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response size is inconsistent with its byte count."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From 410eaabd3abca304f5b413374e1ef4402bad089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 04/17] fix: tell the client channel when the peer closes the
 connection

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..2b45c43 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -161,6 +161,7 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
         {
             m_logger->info("Connection gracefully closed by peer.");
             close();
+            send_error("Connection closed by peer.");
         }
         else
         {
-- 
2.43.0


From 774f951cc0844532309c2fcf17bee4360362c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:42 +0000
Subject: [PATCH 05/17] fix: close the client's failed connection at once and
 ignore its late completions

---
 .../channel/AsioClientTcpConnection.cpp       | 67 +++++++++++--------
 .../client/channel/AsioClientTcpConnection.h  | 10 +--
 2 files changed, 45 insertions(+), 32 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 2b45c43..59bb97c 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,7 +34,8 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_connection_id{0}
 {
 
 }
@@ -74,7 +75,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         m_resolver.async_resolve(query,
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
                                                             std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                            _1, _2)));
+                                                            m_connection_id, _1, _2)));
     }
 
     if(m_current_connection_status == ConnectionStatus::Connected)
@@ -90,16 +91,7 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
-
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
-
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
+        close_connection();
     });
 }
 
@@ -113,14 +105,14 @@ void AsioClientTcpConnection::shutdown()
     });
 }
 
-void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
+void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        close_connection();
         send_error(ec.message());
         return;
     }
@@ -129,17 +121,17 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
                         endpoints,
                         m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
                                                 std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+                                                m_connection_id, _1)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        close_connection();
         send_error(ec.message());
         return;
     }
@@ -151,22 +143,22 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
+            close_connection();
             send_error("Connection closed by peer.");
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
+            close_connection();
             send_error(ec.message());
         }
         return;
@@ -183,14 +175,14 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(unsigned int connection_id, const std::error_code& ec, std::size_t bytes_transferred)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        close_connection();
         send_error(ec.message());
         return;
     }
@@ -206,6 +198,25 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
     }
 }
 
+void AsioClientTcpConnection::close_connection()
+{
+    m_current_connection_status = ConnectionStatus::NotConnected;
+
+    // What is still to be completed for this connection must not affect the next one
+    ++m_connection_id;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
+
+    m_write_buffer = nullptr;
+}
+
 void AsioClientTcpConnection::begin_read()
 {
     if(m_is_shutdown) return;
@@ -213,7 +224,7 @@ void AsioClientTcpConnection::begin_read()
     m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+                                                         m_connection_id, _1, _2)));
 }
 
 void AsioClientTcpConnection::send_buffer()
@@ -225,7 +236,7 @@ void AsioClientTcpConnection::send_buffer()
         m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
                                 m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
                                                         std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+                                                        m_connection_id, _1, _2)));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..8cb6581 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -50,11 +50,12 @@ private:
         Connected
     };
 
-    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
+    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void close_connection();
     void begin_read();
     void send_buffer();
     void send_error(const std::string& message);
@@ -68,6 +69,7 @@ private:
 
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
+    unsigned int m_connection_id;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
 
-- 
2.43.0


From 8db5ff841f0020e283297e14f44c6c341928820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 06/17] fix: write every request completely, keeping its buffer
 until it is written

---
 .../channel/AsioClientTcpConnection.cpp       | 21 ++++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 59bb97c..139513e 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -35,7 +35,8 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
           m_current_connection_status{ConnectionStatus::NotConnected},
-          m_connection_id{0}
+          m_connection_id{0},
+          m_is_sending{false}
 {
 
 }
@@ -189,7 +190,8 @@ void AsioClientTcpConnection::write_handler(unsigned int connection_id, const st
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_sending = false;
+    send_buffer();
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -214,6 +216,7 @@ void AsioClientTcpConnection::close_connection()
         m_tcp_socket.close(ec);
     }
 
+    m_is_sending = false;
     m_write_buffer = nullptr;
 }
 
@@ -231,12 +234,16 @@ void AsioClientTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer)
+    if(m_write_buffer && !m_is_sending)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        m_connection_id, _1, _2)));
+        // The buffer must live until everything is written, even if another message is given in the meantime
+        std::shared_ptr<ser4cpp::Buffer> buffer{std::move(m_write_buffer)};
+        m_is_sending = true;
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap([this, self = shared_from_this(), buffer, connection_id = m_connection_id](const asio::error_code& ec, std::size_t bytes_transferred) {
+                              write_handler(connection_id, ec, bytes_transferred);
+                          }));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 8cb6581..063eb79 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -70,6 +70,7 @@ private:
     bool m_is_shutdown;
     ConnectionStatus m_current_connection_status;
     unsigned int m_connection_id;
+    bool m_is_sending;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
 
-- 
2.43.0


From e95052fa179b7fbc24bf1430a96f185f19979c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:02 +0000
Subject: [PATCH 07/17] fix: connect from the given adapter and report when
 that is not possible

---
 .../channel/AsioClientTcpConnection.cpp       | 54 ++++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  3 +-
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 139513e..6aabf57 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -56,20 +56,6 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
     {
         m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
 
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
-
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
         asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
@@ -118,20 +104,48 @@ void AsioClientTcpConnection::resolve_handler(unsigned int connection_id, const
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                m_connection_id, _1)));
+    connect(endpoints);
+}
+
+void AsioClientTcpConnection::connect(asio::ip::tcp::resolver::iterator endpoint)
+{
+    asio::error_code ec{};
+
+    // Every attempt needs a new socket
+    m_tcp_socket.close(ec);
+    m_tcp_socket.open(endpoint->endpoint().protocol(), ec);
+    if(ec) { m_logger->error("socket open error: {}", ec.message()); connect_handler(m_connection_id, ec, endpoint); return; }
+
+    // Connect to the proper adapter
+    if(!m_adapter.empty())
+    {
+        const auto address = asio::ip::address::from_string(m_adapter, ec);
+        if(ec) { m_logger->error("from_address error: {}", ec.message()); connect_handler(m_connection_id, ec, endpoint); return; }
+
+        m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
+        if(ec) { m_logger->error("socket bind error: {}", ec.message()); connect_handler(m_connection_id, ec, endpoint); return; }
+    }
+
+    m_tcp_socket.async_connect(endpoint->endpoint(),
+                               m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                       std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                       m_connection_id, _1, endpoint)));
 }
 
-void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint)
 {
     if(m_is_shutdown || connection_id != m_connection_id) return;
 
     if(ec)
     {
         m_logger->error("Connection error: {}", ec.message());
+
+        if(++endpoint != asio::ip::tcp::resolver::iterator{})
+        {
+            connect(endpoint);
+            return;
+        }
+
         close_connection();
         send_error(ec.message());
         return;
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 063eb79..7dfc106 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -51,10 +51,11 @@ private:
     };
 
     void resolve_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(unsigned int connection_id, const asio::error_code& ec);
+    void connect_handler(unsigned int connection_id, const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint);
     void read_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
     void write_handler(unsigned int connection_id, const asio::error_code& ec, std::size_t bytes_transferred);
 
+    void connect(asio::ip::tcp::resolver::iterator endpoint);
     void close_connection();
     void begin_read();
     void send_buffer();
-- 
2.43.0


From a19b7d9e41b218a0cf25fce1d21f27e25f7197ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 08/17] fix: an expired timeout of a finished request no longer
 times out the next one

---
 lib/src/client/channel/ClientChannelTcp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..f1dd56a 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -192,10 +192,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        const auto transaction_id = m_current_request->transaction_id;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            // A timer that expires just before it is cancelled must not affect the next request
+            if (m_current_request && m_current_request->transaction_id == transaction_id)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
-- 
2.43.0


From a5118d1f45c5018b70818bd1fdaa5e5f3f749cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 09/17] fix: restarting a scheduled request does not double its
 polling

---
 lib/src/client/session/ScheduledRequest.h   |  3 ++-
 lib/src/client/session/ScheduledRequest.hpp | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..78fc7d5 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -49,7 +49,7 @@ public:
     duration_t get_frequency() const override;
 
 private:
-    void execute();
+    void execute(unsigned int run);
 
     std::shared_ptr<IClientSession> m_session;
     ResponseHandler<TResponse> m_handler;
@@ -59,6 +59,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    unsigned int m_current_run;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..35e2d73 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_current_run{0},
       m_timer{nullptr}
 {
 
@@ -50,7 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
-            execute();
+            execute(++m_current_run);
         }
     });
 }
@@ -88,7 +89,7 @@ bool ScheduledRequest<TRequest, TResponse>::is_running() const
 };
 
 template<typename TRequest, typename TResponse>
-void ScheduledRequest<TRequest, TResponse>::execute()
+void ScheduledRequest<TRequest, TResponse>::execute(unsigned int run)
 {
     // Send the request
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
@@ -96,11 +97,16 @@ void ScheduledRequest<TRequest, TResponse>::execute()
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        // The response to a request sent before the polling was stopped and restarted doesn't continue the polling
+        if(m_running && run == m_current_run)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                // The timer may have elapsed just before the polling was stopped
+                if(m_running && run == m_current_run)
+                {
+                    execute(run);
+                }
             });
         }
     });
-- 
2.43.0


From f5a94c2c54e8d09cbbcfe919f4ed66a63381e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 10/17] fix: keep accepting connections after a failed accept

---
 lib/src/server/channel/AsioServer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..1d39e89 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,10 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        // The connection was not established, so it's not counted. Other clients must still be accepted.
+        m_logger->error("Accept error: {}", ec.message());
+        m_connections.remove(connection);
+        start_accept();
         return;
     }
 
-- 
2.43.0


From 2d92651fef37e582acf22a6f9c36344b1e751fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 11/17] fix: write every response of the server completely and
 in order

---
 .../channel/AsioServerTcpConnection.cpp       | 23 ++++++++++++-------
 .../server/channel/AsioServerTcpConnection.h  |  4 +++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..87685ac 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -32,7 +32,8 @@ AsioServerTcpConnection::AsioServerTcpConnection(std::shared_ptr<Logger> logger,
           m_server{server},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_is_connected{false}
+          m_is_connected{false},
+          m_is_sending{false}
 {
 
 }
@@ -46,7 +47,7 @@ void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
+    m_write_queue.push_back(std::make_unique<ser4cpp::Buffer>(data));
     send_buffer();
 }
 
@@ -135,7 +136,9 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_sending = false;
+    m_write_queue.pop_front();
+    send_buffer();
 
     if(m_connection_listener)
     {
@@ -160,12 +163,16 @@ void AsioServerTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer && m_is_connected)
+    // Responses are written one after the other, each completely
+    if(!m_write_queue.empty() && !m_is_sending && m_is_connected)
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        const auto& buffer = m_write_queue.front();
+        m_is_sending = true;
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                     std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                     _1, _2)));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..33d4ed4 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,7 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -61,8 +62,9 @@ private:
 
     bool m_is_shutdown;
     bool m_is_connected;
+    bool m_is_sending;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    std::deque<std::unique_ptr<ser4cpp::Buffer>> m_write_queue;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From b92fc5cf05b8a1055c8fd40baacad3ff3db34d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 12/17] fix: a session added for a used unit identifier
 replaces the old one

---
 lib/src/server/channel/ServerChannelTcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..19b336e 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,7 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
-        m_sessions.insert({unit_identifier, session});
+        m_sessions[unit_identifier] = session;
     });
 }
 
-- 
2.43.0


From 77e845bf4047bb624c69a193934bed192619c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 13/17] fix: close the client's socket when it is shut down

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 6aabf57..dd1e31f 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -87,8 +87,7 @@ void AsioClientTcpConnection::shutdown()
     m_executor->post([=, self = shared_from_this()] () {
         m_is_shutdown = true;
 
-        std::error_code ec;
-        m_tcp_socket.cancel(ec);
+        close_connection();
     });
 }
 
-- 
2.43.0


From f87d7f46ee40996ac240d5d534e2d1bd5888d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 14/17] fix: do not keep a request scheduled after the
 session's shutdown

---
 lib/src/client/session/ClientSessionImpl.cpp | 8 +++++++-
 lib/src/client/session/ClientSessionImpl.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/session/ClientSessionImpl.cpp b/lib/src/client/session/ClientSessionImpl.cpp
index 4a264cf..1836179 100644
--- a/lib/src/client/session/ClientSessionImpl.cpp
+++ b/lib/src/client/session/ClientSessionImpl.cpp
@@ -47,7 +47,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
   m_logger{logger},
   m_channel{channel},
   m_unit_identifier{unit_identifier},
-  m_default_timeout{default_timeout}
+  m_default_timeout{default_timeout},
+  m_is_shutdown{false}
 {
 
 }
@@ -55,6 +56,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
 void ClientSessionImpl::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
+        m_is_shutdown = true;
+
         for(auto& req : m_scheduled_requests)
         {
             req->stop();
@@ -272,6 +275,9 @@ std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(cons
     scheduled_request->start();
 
     m_executor->post([=, self = shared_from_this()]() {
+        // Nothing would release it after the shutdown
+        if(m_is_shutdown) return;
+
         m_scheduled_requests.push_back(scheduled_request);
     });
 
diff --git a/lib/src/client/session/ClientSessionImpl.h b/lib/src/client/session/ClientSessionImpl.h
index a98c138..d2bd612 100644
--- a/lib/src/client/session/ClientSessionImpl.h
+++ b/lib/src/client/session/ClientSessionImpl.h
@@ -147,6 +147,7 @@ private:
     UnitIdentifier m_unit_identifier;
     duration_t m_default_timeout;
 
+    bool m_is_shutdown;
     std::vector<std::shared_ptr<IScheduledRequest>> m_scheduled_requests;
 };
 
-- 
2.43.0


From 83363f1769961073b82a2ab8a71df796628e77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 15/17] fix: shutting down the manager joins its background
 threads

---
 lib/src/ModbusManagerImpl.cpp | 28 +++++++++++++++++-----------
 lib/src/ModbusManagerImpl.h   |  5 ++++-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/src/ModbusManagerImpl.cpp b/lib/src/ModbusManagerImpl.cpp
index 6c101a9..8ba1bed 100644
--- a/lib/src/ModbusManagerImpl.cpp
+++ b/lib/src/ModbusManagerImpl.cpp
@@ -29,7 +29,7 @@ namespace modbus
 ModbusManagerImpl::ModbusManagerImpl(std::shared_ptr<Logger> logger, unsigned int number_of_threads)
     : m_io_service{std::make_shared<asio::io_service>()},
       m_logger{std::move(logger)},
-      m_thread_pool{m_io_service, number_of_threads}
+      m_thread_pool{std::make_unique<exe4cpp::ThreadPool>(m_io_service, number_of_threads)}
 {
 
 }
@@ -87,19 +87,25 @@ std::shared_ptr<IServerChannel> ModbusManagerImpl::create_server_tcp_channel(con
 
 void ModbusManagerImpl::shutdown()
 {
-    std::lock_guard<std::mutex> lock(m_mutex);
-
-    for(auto channel : m_client_channels)
     {
-        channel->shutdown();
-    }
-    m_client_channels.clear();
+        std::lock_guard<std::mutex> lock(m_mutex);
 
-    for(auto channel : m_server_channels)
-    {
-        channel->shutdown();
+        for(auto channel : m_client_channels)
+        {
+            channel->shutdown();
+        }
+        m_client_channels.clear();
+
+        for(auto channel : m_server_channels)
+        {
+            channel->shutdown();
+        }
+        m_server_channels.clear();
     }
-    m_server_channels.clear();
+
+    // Join the background threads once everything is executed
+    std::lock_guard<std::mutex> lock(m_thread_pool_mutex);
+    m_thread_pool.reset();
 }
 
 } // namespace modbus
diff --git a/lib/src/ModbusManagerImpl.h b/lib/src/ModbusManagerImpl.h
index 3b62422..b0a22ba 100644
--- a/lib/src/ModbusManagerImpl.h
+++ b/lib/src/ModbusManagerImpl.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_MODBUSMANAGERIMPL_H
 #define MODBUS_MODBUSMANAGERIMPL_H
 
+#include <memory>
 #include <mutex>
 #include "exe4cpp/asio/ThreadPool.h"
 #include "modbus/IModbusManager.h"
@@ -42,7 +43,9 @@ public:
 private:
     std::shared_ptr<asio::io_service> m_io_service;
     std::shared_ptr<Logger> m_logger;
-    exe4cpp::ThreadPool m_thread_pool;
+
+    std::mutex m_thread_pool_mutex;
+    std::unique_ptr<exe4cpp::ThreadPool> m_thread_pool;
 
     std::mutex m_mutex;
     std::vector<std::shared_ptr<IClientChannel>> m_client_channels;
-- 
2.43.0


From 12d2468f5907d659a9ba0c9c3430ed9904a8e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 16/17] fix: do not report a malformed request after the
 channel's shutdown

---
 lib/src/client/channel/ClientChannelTcp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index f1dd56a..5c40895 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -85,6 +85,8 @@ void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
     else
     {
         m_executor->post([=, self = shared_from_this()]() {
+            if(m_is_shutdown) return;
+
             auto exception = Expected<ser4cpp::rseq_t>::from_exception(MalformedModbusRequestException("Modbus request is not valid."));
             response_handler(exception);
         });
-- 
2.43.0


From 67ff7f6566e2f582b72b7a6154aed7ee8a200184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 17/17] fix: make the channels' and scheduled requests' state
 safe to use from several threads

---
 lib/src/client/channel/ClientChannelTcp.cpp | 14 +++++++++++---
 lib/src/client/channel/ClientChannelTcp.h   |  5 ++++-
 lib/src/client/session/ScheduledRequest.h   |  5 +++--
 lib/src/server/channel/ServerChannelTcp.h   |  3 ++-
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 5c40895..e4a8b9e 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -44,6 +44,7 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
 {
     std::shared_ptr<IClientSession> session;
 
+    std::lock_guard<std::mutex> lock{m_sessions_mutex};
     if(!m_is_shutdown)
     {
         session = std::make_shared<ClientSessionImpl>(m_executor,
@@ -97,13 +98,20 @@ void ClientChannelTcp::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
         m_logger->info("Shutting down.");
-        m_is_shutdown = true;
 
-        for(auto& session : m_sessions)
+        std::vector<std::shared_ptr<IClientSession>> sessions;
+        {
+            // No session is created from now on
+            std::lock_guard<std::mutex> lock{m_sessions_mutex};
+            m_is_shutdown = true;
+            sessions.swap(m_sessions);
+        }
+
+        for(auto& session : sessions)
         {
             session->shutdown();
         }
-        m_sessions.clear();
+        sessions.clear();
 
         m_pending_requests.clear();
         m_current_request.reset(nullptr);
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..4beba53 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,8 +16,10 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <atomic>
 #include <deque>
 #include <memory>
+#include <mutex>
 #include "ser4cpp/container/Buffer.h"
 #include "exe4cpp/IExecutor.h"
 
@@ -68,7 +70,8 @@ private:
     std::shared_ptr<Logger> m_logger;
     std::shared_ptr<ITcpConnection> m_tcp_connection;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
+    std::mutex m_sessions_mutex;
     std::vector<std::shared_ptr<IClientSession>> m_sessions;
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 78fc7d5..b34e922 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <atomic>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -56,9 +57,9 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     TRequest m_request;
     duration_t m_timeout;
-    duration_t m_frequency;
+    std::atomic<duration_t> m_frequency;
 
-    bool m_running;
+    std::atomic<bool> m_running;
     unsigned int m_current_run;
     exe4cpp::Timer m_timer;
 };
diff --git a/lib/src/server/channel/ServerChannelTcp.h b/lib/src/server/channel/ServerChannelTcp.h
index 18896d7..a3d2dd0 100644
--- a/lib/src/server/channel/ServerChannelTcp.h
+++ b/lib/src/server/channel/ServerChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SERVERCHANNELTCP_H
 #define MODBUS_SERVERCHANNELTCP_H
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -55,7 +56,7 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     std::shared_ptr<IServer> m_server;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
     bool m_is_started;
     std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;
 };
-- 
2.43.0

