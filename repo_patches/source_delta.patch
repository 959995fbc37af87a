From ba7e7cee7d94b3762f6d8c856718807288ec8f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:48 +0000
Subject: [PATCH 01/32] fix: retry each broker endpoint on a new socket

---
 libamqpprox/amqpprox_session.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9dca7b4..4970dc6 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -996,6 +996,11 @@ void Session::handleConnectionError(
              << "' error_code=" << TlsUtil::augmentTlsError(ec)
              << " conn=" << ConnectionSummary(*this);
 
+    // The next endpoint may be of another address family, and a socket that
+    // got connected can't be connected again: each attempt needs a new socket
+    boost::system::error_code closeEc;
+    d_clientSocket->close(closeEc);
+
     attemptResolvedConnection(connectionManager);
 }
 
-- 
2.43.0


From bbc30980ce6fdda6eb7181241c9e59d19446f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:51 +0000
Subject: [PATCH 02/32] fix: do not connect to further endpoints for a client
 that has left

---
 libamqpprox/amqpprox_session.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 4970dc6..8e58fe8 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -310,6 +310,12 @@ void Session::attemptConnection(
 void Session::attemptResolvedConnection(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
+    if (finished()) {
+        LOG_WARN << "Not trying a further endpoint because client already "
+                 << " disconnected";
+        return;
+    }
+
     if (d_resolvedEndpoints.empty() ||
         d_resolvedEndpointsIndex >= d_resolvedEndpoints.size()) {
         // If we've run out of endpoints or the returned set was empty we must
-- 
2.43.0


From 7b07db6c8ebc6dd1326a1d99b8e8bb05c423bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:26 +0000
Subject: [PATCH 03/32] fix: count each connection once in the round-robin
 balancing of a farm

---
 libamqpprox/amqpprox_session.cpp | 15 ++++++++-------
 libamqpprox/amqpprox_session.h   |  1 +
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 8e58fe8..3c2372f 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -159,6 +159,7 @@ Session::Session(
 , d_egressStartedAt()
 , d_resolvedEndpoints()
 , d_resolvedEndpointsIndex(0)
+, d_currentBackend_p(nullptr)
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
@@ -234,8 +235,11 @@ void Session::attemptConnection(
         return;
     }
 
+    // Each call to getConnection counts as a use of the backend for the farm's
+    // balancing, so it is only called once per attempted backend.
     const Backend *backend =
         connectionManager->getConnection(d_egressRetryCounter);
+    d_currentBackend_p = backend;
 
     if (backend == nullptr) {
         LOG_ERROR << "attemptConnection: No backends available for connection,"
@@ -258,8 +262,7 @@ void Session::attemptConnection(
             "ConnID",
             boost::log::attributes::constant<uint64_t>(d_sessionState.id()));
 
-        auto currentBackend =
-            connectionManager->getConnection(d_egressRetryCounter);
+        auto currentBackend = d_currentBackend_p;
 
         // With Boost ASIO it sometimes on Linux returns a good error code,
         // but no items in the list. This catches this case as well as the
@@ -380,8 +383,7 @@ void Session::attemptEndpointConnection(
             }
 
             // Get the current backend and the remote client
-            auto currentBackend =
-                connectionManager->getConnection(d_egressRetryCounter);
+            auto currentBackend = d_currentBackend_p;
 
             d_clientSocket->setSecure(currentBackend->tlsEnabled());
 
@@ -993,9 +995,8 @@ void Session::handleConnectionError(
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
     std::string name;
-    auto backend = connectionManager->getConnection(d_egressRetryCounter);
-    if (backend) {
-        name = backend->name();
+    if (d_currentBackend_p) {
+        name = d_currentBackend_p->name();
     }
 
     LOG_WARN << action << " received connecting to '" << name
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 545a9b0..fa1ef10 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -85,6 +85,7 @@ class Session : public std::enable_shared_from_this<Session> {
     TimePoint                    d_egressStartedAt;
     std::vector<boost::asio::ip::tcp::endpoint> d_resolvedEndpoints;
     uint32_t                                    d_resolvedEndpointsIndex;
+    const Backend                              *d_currentBackend_p;
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
-- 
2.43.0


From 5d2d3bee6da7d461bd81c30d5d274c00c3be497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:23 +0000
Subject: [PATCH 04/32] fix: balance sessions that are being authenticated at
 the same time

---
 libamqpprox/amqpprox_connectionmanager.cpp | 8 +++++++-
 libamqpprox/amqpprox_connectionmanager.h   | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/libamqpprox/amqpprox_connectionmanager.cpp b/libamqpprox/amqpprox_connectionmanager.cpp
index 1fa0892..dc97805 100644
--- a/libamqpprox/amqpprox_connectionmanager.cpp
+++ b/libamqpprox/amqpprox_connectionmanager.cpp
@@ -35,9 +35,15 @@ ConnectionManager::ConnectionManager(std::shared_ptr<BackendSet> backendSet,
 {
 }
 
-const Backend *ConnectionManager::getConnection(uint64_t retryCount) const
+const Backend *ConnectionManager::getConnection(uint64_t retryCount)
 {
     if (d_backendSelector_p) {
+        if (retryCount == 0) {
+            // Other sessions may have been given connections while this one
+            // waited (e.g. for authentication), so start from where they left
+            d_markerSnapshot = d_backendSet->markers();
+        }
+
         return d_backendSelector_p->select(
             d_backendSet.get(), d_markerSnapshot, retryCount);
     }
diff --git a/libamqpprox/amqpprox_connectionmanager.h b/libamqpprox/amqpprox_connectionmanager.h
index 8ee315b..6c66a23 100644
--- a/libamqpprox/amqpprox_connectionmanager.h
+++ b/libamqpprox/amqpprox_connectionmanager.h
@@ -85,6 +85,7 @@ class ConnectionManager {
      */
     BackendSelector *backendSelector() const;
 
+    // MANIPULATORS
     /**
      * \brief Return a pointer to a `Backend` connection candidate, to which an
      * outgoing connection should be attempted.
@@ -96,9 +97,10 @@ class ConnectionManager {
      * defined by the `BackendSet` backing this instance. The order in which
      * the candidates will be returned is defined by the `BackendSelector` and
      * `Marker` snapshot. If there are no valid `Backend` instances to connect
-     * to, this method will return `nullptr`.
+     * to, this method will return `nullptr`. The `Marker` snapshot is renewed
+     * when the first candidate is requested, with a `retryCount` of zero.
      */
-    const Backend *getConnection(uint64_t retryCount) const;
+    const Backend *getConnection(uint64_t retryCount);
 };
 
 // ACCESSORS
-- 
2.43.0


From a3f54a28b0a760c065add442068de25576fcdea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:58 +0000
Subject: [PATCH 05/32] fix: deny clients when the auth service answers with an
 error status

An empty body, or a body that happens to parse, of a 4xx or 5xx response was
taken for an AuthResponse, whose default result is ALLOW.
---
 libamqpprox/amqpprox_httpauthintercept.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libamqpprox/amqpprox_httpauthintercept.cpp b/libamqpprox/amqpprox_httpauthintercept.cpp
index eb192fa..3f4d86c 100644
--- a/libamqpprox/amqpprox_httpauthintercept.cpp
+++ b/libamqpprox/amqpprox_httpauthintercept.cpp
@@ -233,6 +233,21 @@ void HttpAuthIntercept::onRead(
         return;
     }
 
+    if (beast::http::to_status_class(response->result()) !=
+        beast::http::status_class::successful) {
+        // An empty or unrelated body of an error response can parse as a valid
+        // AuthResponse, which defaults to ALLOW
+        const std::string errorMsg =
+            "Unexpected http status " + std::to_string(response->result_int()) +
+            " received from http service.";
+        LOG_ERROR << errorMsg;
+        authproto::AuthResponse errorResponseData;
+        errorResponseData.set_result(authproto::AuthResponse::DENY);
+        errorResponseData.set_reason(errorMsg);
+        responseCb(errorResponseData);
+        return;
+    }
+
     authproto::AuthResponse authResponseData;
     if (!authResponseData.ParseFromString(response->body())) {
         const std::string errorMsg = "Unable to deserialize auth response "
-- 
2.43.0


From a16ab5b9fd4c445bfa4a32cb58cd64dd6220ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:30 +0000
Subject: [PATCH 06/32] fix: do not lose a rate limited read when the quota
 timer is rearmed

When the per-second quota ran out and the regular quota timer had already
expired but its handler was still queued, the read waiting for the quota
was aborted by that handler rearming the timer, and nothing ever read from
the socket again. Let the read go ahead when the quota has been refreshed.
---
 libamqpprox/amqpprox_maybesecuresocketadaptor.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_maybesecuresocketadaptor.h b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
index 12a3c64..2cbe037 100644
--- a/libamqpprox/amqpprox_maybesecuresocketadaptor.h
+++ b/libamqpprox/amqpprox_maybesecuresocketadaptor.h
@@ -423,10 +423,6 @@ class MaybeSecureSocketAdaptor
                         // lifetime
                         (void)dataRateTimer;
 
-                        if (error == boost::asio::error::operation_aborted) {
-                            return;
-                        }
-
                         std::shared_ptr<MaybeSecureSocketAdaptor> self =
                             weakSelf.lock();
                         if (!self) {
@@ -435,6 +431,17 @@ class MaybeSecureSocketAdaptor
                             return;
                         }
 
+                        if (error == boost::asio::error::operation_aborted) {
+                            // The regular timer callback was already queued
+                            // when this wait replaced it, and rearming the
+                            // timer aborted this wait. The quota has been
+                            // refreshed, so the read has to go ahead.
+                            if (self->d_dataRateLimit.remainingQuota() > 0) {
+                                self->async_read_some(null_buffer, handler);
+                            }
+                            return;
+                        }
+
                         self->onTimer(error);
                         self->async_read_some(null_buffer, handler);
                     });
-- 
2.43.0


From 90c297c9e2af199f571abd22e1dac98e7538e0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:24 +0000
Subject: [PATCH 07/32] fix: pause and unpause sessions on the thread that runs
 them

VHOST UNPAUSE established the connections of the waiting sessions on the
control thread while the data thread was running the same sessions, so a
client asking for its vhost at that moment could be disconnected instead of
connected, and the session state was used by two threads. Also cope with
a session that is gone by the time its vhost is known to be paused.
---
 libamqpprox/amqpprox_vhostcontrolcommand.cpp    | 12 ++++++++----
 libamqpprox/amqpprox_vhostestablishedpauser.cpp |  4 +++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/libamqpprox/amqpprox_vhostcontrolcommand.cpp b/libamqpprox/amqpprox_vhostcontrolcommand.cpp
index 0a6618e..1ad8b9e 100644
--- a/libamqpprox/amqpprox_vhostcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_vhostcontrolcommand.cpp
@@ -67,9 +67,12 @@ void VhostControlCommand::handleCommand(const std::string & /* command */,
     }
 
     if (subcommand == "PAUSE") {
-        auto visitor = [this, &vhost](std::shared_ptr<Session> session) {
+        // Sessions are paused and unpaused on the thread running them, so that
+        // this can't overlap with them establishing their connection.
+        auto visitor = [&](std::shared_ptr<Session> session) {
             if (session->state().getVirtualHost() == vhost) {
-                session->pause();
+                serverHandle->ioContext().dispatch(
+                    [session] { session->pause(); });
             }
         };
 
@@ -79,9 +82,10 @@ void VhostControlCommand::handleCommand(const std::string & /* command */,
     else if (subcommand == "UNPAUSE") {
         d_vhostState_p->setPaused(vhost, false);
 
-        auto visitor = [this, &vhost](std::shared_ptr<Session> session) {
+        auto visitor = [&](std::shared_ptr<Session> session) {
             if (session->state().getVirtualHost() == vhost) {
-                session->unpause();
+                serverHandle->ioContext().dispatch(
+                    [session] { session->unpause(); });
             }
         };
 
diff --git a/libamqpprox/amqpprox_vhostestablishedpauser.cpp b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
index 7daf9d2..974680f 100644
--- a/libamqpprox/amqpprox_vhostestablishedpauser.cpp
+++ b/libamqpprox/amqpprox_vhostestablishedpauser.cpp
@@ -32,7 +32,9 @@ EventSubscriptionHandle vhostEstablishedPauser(EventSource *eventSource,
         [=](uint64_t id, const std::string &vhost) {
             if (vhostState->isPaused(vhost)) {
                 auto session = server->getSession(id);
-                session->pause();
+                if (session) {
+                    session->pause();
+                }
             }
         });
 }
-- 
2.43.0


From f6d754890a10610263391b730b87c4e783cac692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:53 +0000
Subject: [PATCH 08/32] fix: send the Close of a graceful disconnect between
 frames

SESSION DISCONNECT_GRACEFUL wrote the Close from the control thread, at once
and with the completion handling of the data being forwarded: the Close could
end up in the middle of a frame on its way to the client, and completing it
released the buffer of data still being written to the broker. Do it on the
thread running the session, once no other write to the client is in progress,
and without touching the state of either direction.
---
 libamqpprox/amqpprox_session.cpp              | 56 ++++++++++++++++++-
 libamqpprox/amqpprox_session.h                | 10 +++-
 .../amqpprox_sessioncontrolcommand.cpp        |  6 +-
 3 files changed, 66 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 3c2372f..f4dbdf1 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -160,6 +160,8 @@ Session::Session(
 , d_resolvedEndpoints()
 , d_resolvedEndpointsIndex(0)
 , d_currentBackend_p(nullptr)
+, d_ingressSideWrites(0)
+, d_gracefulDisconnectPending(false)
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
@@ -682,12 +684,46 @@ void Session::disconnect(bool forcible)
             performDisconnectBoth();
         });
     }
+    else if (d_ingressSideWrites > 0) {
+        // The Close can't be sent into the middle of other data
+        d_gracefulDisconnectPending = true;
+    }
     else {
-        d_connector.synthesizeClose(true);
-        sendSyntheticData();
+        sendGracefulClose();
     }
 }
 
+void Session::sendGracefulClose()
+{
+    d_gracefulDisconnectPending = false;
+    if (d_connector.state() == Connector::State::CLIENT_CLOSE_SENT ||
+        d_connector.state() == Connector::State::SERVER_CLOSE_SENT ||
+        d_connector.state() == Connector::State::CLOSED) {
+        // Already closing
+        return;
+    }
+
+    d_connector.synthesizeClose(true);
+
+    // Both directions keep being read and written as before, this write is in
+    // addition to that, so it needs its own copy of the data and must not
+    // touch the state of either direction.
+    const Buffer out  = d_connector.outBuffer();
+    auto         data = std::make_shared<std::string>(
+        static_cast<const char *>(out.ptr()), out.available());
+    d_connector.resetOutBuffer();
+
+    auto self(shared_from_this());
+    boost::asio::async_write(*d_serverSocket,
+                             boost::asio::buffer(data->data(), data->size()),
+                             [this, self, data](error_code ec, std::size_t) {
+                                 if (ec) {
+                                     handleSessionError(
+                                         "write", FlowType::INGRESS, ec);
+                                 }
+                             });
+}
+
 void Session::backendDisconnect()
 {
     auto self(shared_from_this());
@@ -721,7 +757,9 @@ void Session::handleWriteData(FlowType                    direction,
                               Buffer                      data)
 {
     auto self(shared_from_this());
-    auto writeHandler = [this, self, direction](error_code ec, std::size_t) {
+    bool toIngressSide = &writeSocket == d_serverSocket.get();
+    auto writeHandler  = [this, self, direction, toIngressSide](error_code ec,
+                                                               std::size_t) {
         BOOST_LOG_SCOPED_THREAD_ATTR(
             "Vhost",
             boost::log::attributes::constant<std::string>(
@@ -730,6 +768,10 @@ void Session::handleWriteData(FlowType                    direction,
             "ConnID",
             boost::log::attributes::constant<uint64_t>(d_sessionState.id()));
 
+        if (toIngressSide) {
+            --d_ingressSideWrites;
+        }
+
         auto &watermark = waterMark(direction);
         if (0 == watermark) {
             bufferHandle(direction).release();
@@ -741,6 +783,10 @@ void Session::handleWriteData(FlowType                    direction,
             return;
         }
 
+        if (d_gracefulDisconnectPending && d_ingressSideWrites == 0) {
+            sendGracefulClose();
+        }
+
         uint64_t latency =
             std::chrono::duration_cast<std::chrono::milliseconds>(
                 TimePoint() - startedAt(direction))
@@ -757,6 +803,10 @@ void Session::handleWriteData(FlowType                    direction,
         readData(direction);
     };
 
+    if (toIngressSide) {
+        ++d_ingressSideWrites;
+    }
+
     LOG_TRACE << "Write of " << data.available() << " bytes"
               << " " << direction;
     boost::asio::async_write(writeSocket,
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index fa1ef10..22f53ce 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -86,6 +86,8 @@ class Session : public std::enable_shared_from_this<Session> {
     std::vector<boost::asio::ip::tcp::endpoint> d_resolvedEndpoints;
     uint32_t                                    d_resolvedEndpointsIndex;
     const Backend                              *d_currentBackend_p;
+    uint32_t                                    d_ingressSideWrites;
+    bool                                        d_gracefulDisconnectPending;
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
@@ -131,7 +133,8 @@ class Session : public std::enable_shared_from_this<Session> {
     void unpause();
 
     /**
-     * \brief Disconnect both sides of the session
+     * \brief Disconnect both sides of the session. A graceful disconnect must
+     * be requested on the thread running the session.
      * \param forcible to specify forcefully disconnect
      */
     void disconnect(bool forcible);
@@ -222,6 +225,11 @@ class Session : public std::enable_shared_from_this<Session> {
      */
     void sendSyntheticData();
 
+    /**
+     * \brief Start closing both sides by sending Close to the client
+     */
+    void sendGracefulClose();
+
     /**
      * \brief Handle the incoming data that's been received
      * \param direction specifies direction of the data flow (ingress/egress)
diff --git a/libamqpprox/amqpprox_sessioncontrolcommand.cpp b/libamqpprox/amqpprox_sessioncontrolcommand.cpp
index 1014cee..af402a6 100644
--- a/libamqpprox/amqpprox_sessioncontrolcommand.cpp
+++ b/libamqpprox/amqpprox_sessioncontrolcommand.cpp
@@ -60,11 +60,13 @@ void SessionControlCommand::handleCommand(const std::string & /* command */,
         return;
     }
 
+    // These are done on the thread running the session
     if (subcommand == "PAUSE") {
-        session->pause();
+        serverHandle->ioContext().dispatch([session] { session->pause(); });
     }
     else if (subcommand == "DISCONNECT_GRACEFUL") {
-        session->disconnect(false);
+        serverHandle->ioContext().dispatch(
+            [session] { session->disconnect(false); });
     }
     else if (subcommand == "FORCE_DISCONNECT") {
         session->disconnect(true);
-- 
2.43.0


From 0991dd9df84af7d913fac48050081ed2e43898e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:31 +0000
Subject: [PATCH 09/32] fix: keep a session whose backend was disconnected
 under control

After VHOST BACKEND_DISCONNECT the aborted read from the broker marked the
session as finished, so it was forgotten while its client was still connected:
it was no longer listed, and VHOST FORCE_DISCONNECT left it alone. With a TLS
backend the client was disconnected as well.
---
 libamqpprox/amqpprox_session.cpp | 10 ++++++++++
 libamqpprox/amqpprox_session.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index f4dbdf1..9efdb0b 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -162,6 +162,7 @@ Session::Session(
 , d_currentBackend_p(nullptr)
 , d_ingressSideWrites(0)
 , d_gracefulDisconnectPending(false)
+, d_backendDisconnected(false)
 , d_connectionRateLimitedTimer(ioContext)
 , d_authIntercept(authIntercept)
 , d_limitManager(limitManager)
@@ -344,6 +345,8 @@ void Session::attemptEndpointConnection(
     boost::asio::ip::tcp::endpoint            endpoint,
     const std::shared_ptr<ConnectionManager> &connectionManager)
 {
+    d_backendDisconnected = false;
+
     auto self(shared_from_this());
     d_clientSocket->async_connect(
         endpoint, [this, self, connectionManager](error_code ec) {
@@ -736,6 +739,7 @@ void Session::backendDisconnect()
             "ConnID",
             boost::log::attributes::constant<uint64_t>(d_sessionState.id()));
 
+        d_backendDisconnected = true;
         d_clientSocket->async_shutdown([this, self](error_code shutdownEc) {
             if (shutdownEc) {
                 LOG_INFO << "Backend Disconnect shutdown failed rc: "
@@ -978,6 +982,12 @@ void Session::handleSessionError(const char               *action,
                                  FlowType                  direction,
                                  boost::system::error_code ec)
 {
+    if (d_backendDisconnected && direction == FlowType::EGRESS) {
+        // The backend side was closed on purpose. The client is still
+        // connected, so the session isn't over.
+        return;
+    }
+
     if (d_connector.state() == Connector::State::CLOSED) {
         d_sessionState.setDisconnected(
             SessionState::DisconnectType::DISCONNECTED_CLEANLY);
diff --git a/libamqpprox/amqpprox_session.h b/libamqpprox/amqpprox_session.h
index 22f53ce..24c4a38 100644
--- a/libamqpprox/amqpprox_session.h
+++ b/libamqpprox/amqpprox_session.h
@@ -88,6 +88,7 @@ class Session : public std::enable_shared_from_this<Session> {
     const Backend                              *d_currentBackend_p;
     uint32_t                                    d_ingressSideWrites;
     bool                                        d_gracefulDisconnectPending;
+    bool                                        d_backendDisconnected;
     boost::asio::steady_timer                   d_connectionRateLimitedTimer;
     std::shared_ptr<AuthInterceptInterface>     d_authIntercept;
     DataRateLimitManager *d_limitManager;  // HELD NOT OWNED
-- 
2.43.0


From e15cce8b9516348b5e253d9aa92897d797f69982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:10 +0000
Subject: [PATCH 10/32] fix: tell the client when its broker refuses the Open

A Close sent by the broker in response to connection.open, which is how
RabbitMQ denies access to a vhost, was ignored: the client was told nothing
and left waiting.
---
 libamqpprox/amqpprox_connector.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index 61e0111..b44f933 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -239,6 +239,12 @@ void Connector::receive(const Method &method, FlowType direction)
                 d_connectionReadyHandler();
             }
         }
+        else if (method.methodType == methods::Close::methodType() &&
+                 direction == FlowType::EGRESS) {
+            // The server refuses the Open, typically because the user has no
+            // access to the vhost. This throws the CloseError for it.
+            decodeMethod(&d_openOk, method, methodPayload, direction);
+        }
     } break;
     case State::CLIENT_CLOSE_SENT: {
         if (direction == FlowType::INGRESS &&
-- 
2.43.0


From aa392288c77e96133c0e23e6f5cbca604506ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:42 +0000
Subject: [PATCH 11/32] fix: bound the decoding of field values sent by peers

Field arrays and tables nested some thousand levels deep overflowed the
stack, values cut short were read past the end of the frame, and a method
frame too short for a method was interpreted uninitialised.
---
 libamqpprox/amqpprox_packetprocessor.cpp |  6 +-
 libamqpprox/amqpprox_types.cpp           | 91 ++++++++++++++----------
 libamqpprox/amqpprox_types.h             | 14 +++-
 3 files changed, 68 insertions(+), 43 deletions(-)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index 59959f8..efd6121 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -87,7 +87,11 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
 
         if (1 == frame.type && d_connector.state() != Connector::State::OPEN) {
             Method method;
-            Method::decode(&method, frame.payload, frame.length);
+            if (!Method::decode(&method, frame.payload, frame.length)) {
+                LOG_WARN << "Ignoring method frame of " << frame.length
+                         << " bytes, too short for a method";
+                continue;
+            }
 
             LOG_TRACE << ((direction == FlowType::INGRESS) ? "->" : "<-")
                       << " Frame: TYPE=" << (int)frame.type
diff --git a/libamqpprox/amqpprox_types.cpp b/libamqpprox/amqpprox_types.cpp
index e0252b5..7e39d16 100644
--- a/libamqpprox/amqpprox_types.cpp
+++ b/libamqpprox/amqpprox_types.cpp
@@ -39,6 +39,22 @@ const int FLOAT_OCTETS   = 4;
 const int DOUBLE_OCTETS  = 8;
 const int DECIMAL_OCTETS = 5;
 
+// Field arrays and field tables may contain each other. What clients and
+// brokers send is decoded (and later copied and destroyed) recursively, so the
+// depth has to be limited.
+const std::size_t MAX_FIELD_DEPTH = 64;
+
+template <typename Encoded, typename Decoded>
+bool decodeInteger(FieldValue *outValue, char type, Buffer &buffer)
+{
+    if (buffer.available() < sizeof(Encoded)) {
+        return false;
+    }
+
+    *outValue = FieldValue(type, (Decoded)buffer.copy<Encoded>());
+    return true;
+}
+
 template <typename T>
 bool decodeString(std::string *string, Buffer &buffer)
 {
@@ -129,56 +145,44 @@ bool Types::encodeByteVector(Buffer                     &buffer,
     return true;
 }
 
-bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
+bool Types::decodeFieldValue(FieldValue *outValue,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
     assert(outValue != nullptr);
 
+    if (buffer.available() < sizeof(char)) {
+        return false;
+    }
+
     char type = buffer.copy<char>();
     switch (type) {
     case 't':  // boolean
     {
+        if (buffer.available() < sizeof(char)) {
+            return false;
+        }
         FieldValue value(type, (buffer.copy<char>() != 0));
         *outValue = value;
     } break;
     case 'b':  // short-short-int
-    {
-        FieldValue value(type, (int64_t)buffer.copy<big_int8_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_int8_t, int64_t>(outValue, type, buffer);
     case 'B':  // short-short-uint
-    {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint8_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_uint8_t, uint64_t>(outValue, type, buffer);
     case 'U':
         LOG_DEBUG << "Converting unsupported field type 'U' to 's'";
         // fall through
     case 's':  // short-int
-    {
-        FieldValue value('s', (int64_t)buffer.copy<big_int16_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_int16_t, int64_t>(outValue, 's', buffer);
     case 'u':  // short-uint
-    {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint16_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_uint16_t, uint64_t>(outValue, type, buffer);
     case 'I':  // long-int
-    {
-        FieldValue value(type, (int64_t)buffer.copy<big_int32_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_int32_t, int64_t>(outValue, type, buffer);
     case 'i':  // long-uint
-    {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint32_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_uint32_t, uint64_t>(outValue, type, buffer);
     case 'l':  // long-long-int
     case 'L':  // compatibility long-long-int
-    {
-        FieldValue value(type, (int64_t)buffer.copy<big_int64_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_int64_t, int64_t>(outValue, type, buffer);
     case 'f':  // float
     {
         std::vector<uint8_t> floatBuf;
@@ -218,21 +222,18 @@ bool Types::decodeFieldValue(FieldValue *outValue, Buffer &buffer)
     case 'A':  // field-array
     {
         std::vector<FieldValue> val;
-        if (!decodeFieldArray(&val, buffer)) {
+        if (!decodeFieldArray(&val, buffer, depth + 1)) {
             return false;
         }
         FieldValue value(type, val);
         *outValue = value;
     } break;
     case 'T':  // timestamp
-    {
-        FieldValue value(type, (uint64_t)buffer.copy<big_uint64_t>());
-        *outValue = value;
-    } break;
+        return decodeInteger<big_uint64_t, uint64_t>(outValue, type, buffer);
     case 'F':  // field-table
     {
         auto sp = std::make_shared<FieldTable>();
-        if (!decodeFieldTable(sp.get(), buffer)) {
+        if (!decodeFieldTable(sp.get(), buffer, depth + 1)) {
             return false;
         }
         FieldValue value(type, sp);
@@ -391,10 +392,16 @@ bool Types::encodeFieldValue(Buffer &buffer, const FieldValue &fv)
     return true;
 }
 
-bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
+bool Types::decodeFieldArray(std::vector<FieldValue> *vector,
+                             Buffer                  &buffer,
+                             std::size_t              depth)
 {
     assert(vector != nullptr);
 
+    if (depth > MAX_FIELD_DEPTH) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -407,7 +414,7 @@ bool Types::decodeFieldArray(std::vector<FieldValue> *vector, Buffer &buffer)
     auto arrayBuffer = buffer.consume(arrayLength);
     while (arrayBuffer.available() > 0) {
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, arrayBuffer)) {
+        if (!decodeFieldValue(&value, arrayBuffer, depth)) {
             return false;
         }
 
@@ -438,8 +445,14 @@ bool Types::encodeFieldArray(Buffer                        &buffer,
     return true;
 }
 
-bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
+bool Types::decodeFieldTable(FieldTable *table,
+                             Buffer     &buffer,
+                             std::size_t depth)
 {
+    if (depth > MAX_FIELD_DEPTH) {
+        return false;
+    }
+
     if (sizeof(big_uint32_t) > buffer.available()) {
         return false;
     }
@@ -457,7 +470,7 @@ bool Types::decodeFieldTable(FieldTable *table, Buffer &buffer)
         }
 
         FieldValue value('V', false);
-        if (!decodeFieldValue(&value, tBuffer)) {
+        if (!decodeFieldValue(&value, tBuffer, depth)) {
             return false;
         }
 
diff --git a/libamqpprox/amqpprox_types.h b/libamqpprox/amqpprox_types.h
index a66fcd0..6647a63 100644
--- a/libamqpprox/amqpprox_types.h
+++ b/libamqpprox/amqpprox_types.h
@@ -102,9 +102,12 @@ class Types {
      * type
      * \param value AMQP field type stored as `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of arrays and tables the value is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldValue(FieldValue *value, Buffer &buffer);
+    static bool decodeFieldValue(FieldValue *value,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field type and write the data into the specified
@@ -121,10 +124,12 @@ class Types {
      * \param vector AMQP field type array stored as std::vector of
      * `FieldValue`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of arrays and tables the array is nested in
      * \return true in case of success, otherwise false
      */
     static bool decodeFieldArray(std::vector<FieldValue> *vector,
-                                 Buffer                  &buffer);
+                                 Buffer                  &buffer,
+                                 std::size_t              depth = 0);
 
     /**
      * \brief Encode AMQP field type array and write the data into the
@@ -141,9 +146,12 @@ class Types {
      * table type
      * \param table AMQP field table type stored as `FieldTable`
      * \param buffer raw data stored as `Buffer`
+     * \param depth number of arrays and tables the table is nested in
      * \return true in case of success, otherwise false
      */
-    static bool decodeFieldTable(FieldTable *table, Buffer &buffer);
+    static bool decodeFieldTable(FieldTable *table,
+                                 Buffer     &buffer,
+                                 std::size_t depth = 0);
 
     /**
      * \brief Encode AMQP field table and write the data into the specified
-- 
2.43.0


From e3e7e530b63277403583cf472b60ecc74b31e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:29 +0000
Subject: [PATCH 12/32] fix: a port that cannot be listened on no longer ends
 the data thread

---
 libamqpprox/amqpprox_server.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 5b297df..fd5ce06 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -140,10 +140,25 @@ void Server::startListening(int port, bool secure)
 
             boost::asio::ip::tcp::acceptor acceptor(d_ioContext);
             tcp::endpoint                  local_endpoint(tcp::v4(), port);
-            acceptor.open(local_endpoint.protocol());
-            acceptor.set_option(boost::asio::socket_base::reuse_address(true));
-            acceptor.bind(local_endpoint);
-            acceptor.listen(boost::asio::socket_base::max_connections);
+            boost::system::error_code      ec;
+            acceptor.open(local_endpoint.protocol(), ec);
+            if (!ec) {
+                acceptor.set_option(
+                    boost::asio::socket_base::reuse_address(true), ec);
+            }
+            if (!ec) {
+                acceptor.bind(local_endpoint, ec);
+            }
+            if (!ec) {
+                acceptor.listen(boost::asio::socket_base::max_connections, ec);
+            }
+            if (ec) {
+                // Throwing here would end the event loop, and with it every
+                // established session and the other listeners.
+                LOG_ERROR << "Failed to listen on port: " << port
+                          << ", reason: " << ec.message();
+                return;
+            }
             d_listeningSockets.emplace(port, std::move(acceptor));
         }
 
-- 
2.43.0


From a522eacdd50b1d1ae6db15ca51420a2798cd2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:29 +0000
Subject: [PATCH 13/32] fix: an accept cancelled by stopping its listener is
 not restarted on a newer listener of the port

---
 libamqpprox/amqpprox_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index fd5ce06..2dfedc8 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -249,6 +249,11 @@ void Server::doAccept(int port, bool secure)
                 d_eventSource_p->connectionReceived().emit(
                     session->state().id());
             }
+            else if (ec == boost::asio::error::operation_aborted) {
+                // The listener was stopped. The port may already be listened
+                // on again, with its own accept outstanding.
+                return;
+            }
             else {
                 LOG_ERROR << "Accept failed, reason: " << ec.message();
                 // When the accept fails, we still fall through to try the
-- 
2.43.0


From 74b684cb13909c87eea909db185f5daf9b699539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 14/32] fix: LISTEN STOP also stops a listener whose start is
 still queued

---
 libamqpprox/amqpprox_server.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 2dfedc8..d0cdde5 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -185,10 +185,13 @@ void Server::stopListening(int port)
 
 void Server::stopAllListening()
 {
-    std::lock_guard<std::mutex> lg(d_mutex);
-    for (auto &p : d_listeningSockets) {
-        stopListening(p.first);
-    }
+    // Listeners are only added and removed on the event loop: collecting them
+    // there includes those whose start has been requested but not yet run.
+    d_ioContext.dispatch([this] {
+        std::lock_guard<std::mutex> lg(d_mutex);
+        closeListeners();
+        d_listeningSockets.clear();
+    });
 }
 
 void Server::timer()
-- 
2.43.0


From 71a243d50b00993b240c70124245c2b142638a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 15/32] fix: an aborted connection no longer delays those
 queued behind it

---
 libamqpprox/amqpprox_server.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index d0cdde5..e6026b9 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -146,6 +146,14 @@ void Server::startListening(int port, bool secure)
                 acceptor.set_option(
                     boost::asio::socket_base::reuse_address(true), ec);
             }
+            if (!ec) {
+                // Report aborted connections, so that the accept is restarted
+                // for those queued behind them: the event loop is only told
+                // about new arrivals.
+                acceptor.set_option(
+                    boost::asio::socket_base::enable_connection_aborted(true),
+                    ec);
+            }
             if (!ec) {
                 acceptor.bind(local_endpoint, ec);
             }
-- 
2.43.0


From 71fc0a9b6f74d6b157683b7f8144d9172c9b1be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:22 +0000
Subject: [PATCH 16/32] fix: the PROXY header for a backend given by name
 carries the address connected to

---
 libamqpprox/amqpprox_session.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index 9efdb0b..eaa5fa8 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -466,11 +466,27 @@ std::string Session::getProxyProtocolHeader(const Backend *currentBackend)
     std::stringstream remoteClientAddress;
     remoteClientAddress << remoteClient.address();
 
+    auto        inetProtocol = ProxyProtocolHeaderV1::InetProtocol::TCP4;
+    std::string backendAddress = currentBackend->ip();
+    if (currentBackend->dnsBasedEntry()) {
+        // These have no fixed address, name the one that was connected to
+        auto address   = d_sessionState.getEgress().second.address();
+        backendAddress = address.to_string();
+        if (address.is_v6()) {
+            // Both addresses have to be of the announced family
+            inetProtocol = ProxyProtocolHeaderV1::InetProtocol::TCP6;
+            if (remoteClient.address().is_v4()) {
+                remoteClientAddress.str("");
+                remoteClientAddress << "::ffff:" << remoteClient.address();
+            }
+        }
+    }
+
     // Add Proxy Protocol-V1 Header
     ProxyProtocolHeaderV1 header =
-        ProxyProtocolHeaderV1(ProxyProtocolHeaderV1::InetProtocol::TCP4,
+        ProxyProtocolHeaderV1(inetProtocol,
                               remoteClientAddress.str(),
-                              currentBackend->ip(),
+                              backendAddress,
                               remoteClient.port(),
                               currentBackend->port());
 
-- 
2.43.0


From 13efa1570c238578b545f415c82d0130e215562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:55 +0000
Subject: [PATCH 17/32] fix: TLS settings of the listener apply to the next
 client, not only to the one after it

---
 libamqpprox/amqpprox_server.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index e6026b9..d95f831 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -225,14 +225,20 @@ void Server::doAccept(int port, bool secure)
         return;
     }
 
-    std::shared_ptr<MaybeSecureSocketAdaptor<>> incomingSocket =
-        std::make_shared<MaybeSecureSocketAdaptor<>>(
-            d_ioContext, d_ingressTlsContext, secure);
+    auto acceptedSocket = std::make_shared<tcp::socket>(d_ioContext);
 
     it->second.async_accept(
-        incomingSocket->socket(),
-        [this, port, secure, incomingSocket](error_code ec) {
+        *acceptedSocket,
+        [this, port, secure, acceptedSocket](error_code ec) {
             if (!ec) {
+                // The TLS settings are taken over when the adaptor is made, so
+                // this must not happen before there is a client: the settings
+                // could change while waiting for it.
+                std::shared_ptr<MaybeSecureSocketAdaptor<>> incomingSocket =
+                    std::make_shared<MaybeSecureSocketAdaptor<>>(
+                        d_ioContext, d_ingressTlsContext, secure);
+                incomingSocket->socket() = std::move(*acceptedSocket);
+
                 std::shared_ptr<MaybeSecureSocketAdaptor<>> clientSocket =
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
-- 
2.43.0


From 471302e89d1ced5fc868c535ae91a1bcb2fe7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:35 +0000
Subject: [PATCH 18/32] fix: deleting a backend no longer frees it under the
 sessions that use it

---
 libamqpprox/amqpprox_backendstore.cpp | 27 ++++++++++++++-------------
 libamqpprox/amqpprox_backendstore.h   |  9 +++++++--
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/libamqpprox/amqpprox_backendstore.cpp b/libamqpprox/amqpprox_backendstore.cpp
index 55bce56..6e2c486 100644
--- a/libamqpprox/amqpprox_backendstore.cpp
+++ b/libamqpprox/amqpprox_backendstore.cpp
@@ -22,33 +22,34 @@ namespace amqpprox {
 
 BackendStore::BackendStore()
 : d_backends()
+, d_removed()
 {
 }
 
 int BackendStore::insert(const Backend &backend)
 {
-    auto namedBackend = lookup(backend.name());
-
-    if (namedBackend) {
+    std::lock_guard<std::mutex> lg(d_mutex);
+    auto inserted = d_backends.emplace(backend.name(), nullptr);
+    if (!inserted.second) {
         return 1;
     }
 
-    std::lock_guard<std::mutex> lg(d_mutex);
-    d_backends.insert(std::make_pair(backend.name(), backend));
-    auto addrKey = std::make_pair(backend.ip(), backend.port());
+    inserted.first->second.reset(new Backend(backend));
     return 0;
 }
 
 int BackendStore::remove(const std::string &name)
 {
-    auto backend = lookup(name);
-    if (!backend) {
+    std::lock_guard<std::mutex> lg(d_mutex);
+    auto                        it = d_backends.find(name);
+    if (it == d_backends.end()) {
         return 1;
     }
 
-    std::lock_guard<std::mutex> lg(d_mutex);
-    auto addrKey = std::make_pair(backend->ip(), backend->port());
-    d_backends.erase(name);
+    // Sessions hold pointers to the backends they connect to, so the removed
+    // one has to outlive them
+    d_removed.push_back(std::move(it->second));
+    d_backends.erase(it);
     return 0;
 }
 
@@ -60,7 +61,7 @@ const Backend *BackendStore::lookup(const std::string &name) const
         return nullptr;
     }
     else {
-        return &(it->second);
+        return it->second.get();
     }
 }
 
@@ -68,7 +69,7 @@ void BackendStore::print(std::ostream &os) const
 {
     std::lock_guard<std::mutex> lg(d_mutex);
     for (const auto &backend : d_backends) {
-        os << backend.second << std::endl;
+        os << *backend.second << std::endl;
     }
 }
 
diff --git a/libamqpprox/amqpprox_backendstore.h b/libamqpprox/amqpprox_backendstore.h
index 071a468..568e6d5 100644
--- a/libamqpprox/amqpprox_backendstore.h
+++ b/libamqpprox/amqpprox_backendstore.h
@@ -20,8 +20,10 @@
 
 #include <iosfwd>
 #include <map>
+#include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -30,8 +32,11 @@ namespace amqpprox {
  * \brief Represents Backend store
  */
 class BackendStore {
-    std::unordered_map<std::string, Backend> d_backends;
-    mutable std::mutex                       d_mutex;
+    using BackendPtr = std::unique_ptr<const Backend>;
+
+    std::unordered_map<std::string, BackendPtr> d_backends;
+    std::vector<BackendPtr> d_removed;  // may still be in use by sessions
+    mutable std::mutex      d_mutex;
 
   public:
     BackendStore();
-- 
2.43.0


From b48b5912fd5e314d42599a8e3fbd7a6e68fbe035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:59 +0000
Subject: [PATCH 19/32] fix: deleting or adding a backend takes effect in the
 farms that name it

---
 amqpprox/amqpprox.m.cpp                        |  2 +-
 libamqpprox/amqpprox_backendcontrolcommand.cpp | 10 +++++++++-
 libamqpprox/amqpprox_backendcontrolcommand.h   |  6 ++++--
 libamqpprox/amqpprox_farm.cpp                  |  5 ++++-
 libamqpprox/amqpprox_farmstore.cpp             | 15 +++++++++++++++
 libamqpprox/amqpprox_farmstore.h               |  6 ++++++
 6 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/amqpprox/amqpprox.m.cpp b/amqpprox/amqpprox.m.cpp
index 2a114d6..8b692b2 100644
--- a/amqpprox/amqpprox.m.cpp
+++ b/amqpprox/amqpprox.m.cpp
@@ -233,7 +233,7 @@ int main(int argc, char *argv[])
                                           &backendStore,
                                           &backendSelectorStore,
                                           &partitionPolicyStore)),
-        CommandPtr(new BackendControlCommand(&backendStore)),
+        CommandPtr(new BackendControlCommand(&backendStore, &farmStore)),
         CommandPtr(
             new MapControlCommand(&resourceMapper, &connectionSelector)),
         CommandPtr(new VhostControlCommand(&vhostState)),
diff --git a/libamqpprox/amqpprox_backendcontrolcommand.cpp b/libamqpprox/amqpprox_backendcontrolcommand.cpp
index ecec1d9..2f65cc4 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_backendcontrolcommand.cpp
@@ -18,6 +18,7 @@
 #include <amqpprox_backendstore.h>
 #include <amqpprox_constants.h>
 #include <amqpprox_control.h>
+#include <amqpprox_farmstore.h>
 
 #include <sstream>
 #include <string>
@@ -28,8 +29,10 @@
 namespace Bloomberg {
 namespace amqpprox {
 
-BackendControlCommand::BackendControlCommand(BackendStore *store)
+BackendControlCommand::BackendControlCommand(BackendStore *store,
+                                             FarmStore    *farmStore)
 : d_store_p(store)
+, d_farmStore_p(farmStore)
 {
 }
 
@@ -110,6 +113,8 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
                        << "', error code: " << rc;
                 return;
             }
+
+            d_farmStore_p->repartitionFarmsWith(name);
         }
         else {
             output << "Arguments not correctly provided";
@@ -126,7 +131,10 @@ void BackendControlCommand::handleCommand(const std::string & /* command */,
             if (rc) {
                 output << "Delete failed to remove '" << name << "', rcode "
                        << rc;
+                return;
             }
+
+            d_farmStore_p->repartitionFarmsWith(name);
         }
     }
     else if (subcommand == "PRINT") {
diff --git a/libamqpprox/amqpprox_backendcontrolcommand.h b/libamqpprox/amqpprox_backendcontrolcommand.h
index f07654c..3c5086f 100644
--- a/libamqpprox/amqpprox_backendcontrolcommand.h
+++ b/libamqpprox/amqpprox_backendcontrolcommand.h
@@ -22,15 +22,17 @@ namespace Bloomberg {
 namespace amqpprox {
 
 class BackendStore;
+class FarmStore;
 
 /**
  * \brief Represents a backend control command
  */
 class BackendControlCommand : public ControlCommand {
-    BackendStore *d_store_p;  // HELD NOT OWNED
+    BackendStore *d_store_p;      // HELD NOT OWNED
+    FarmStore    *d_farmStore_p;  // HELD NOT OWNED
 
   public:
-    explicit BackendControlCommand(BackendStore *store);
+    BackendControlCommand(BackendStore *store, FarmStore *farmStore);
 
     /**
      * \return Command verb this handles
diff --git a/libamqpprox/amqpprox_farm.cpp b/libamqpprox/amqpprox_farm.cpp
index 2ddf61a..e82c6bf 100644
--- a/libamqpprox/amqpprox_farm.cpp
+++ b/libamqpprox/amqpprox_farm.cpp
@@ -86,7 +86,10 @@ void Farm::doRepartitionWhileLocked(std::lock_guard<std::mutex> & /* guard */)
 
     // Create the initial partition
     for (const auto &member : d_backendMembers) {
-        initialPartition.push_back(d_backendStore_p->lookup(member));
+        const Backend *backend = d_backendStore_p->lookup(member);
+        if (backend) {  // Skip those that have been deleted since
+            initialPartition.push_back(backend);
+        }
     }
 
     auto newSet = std::make_shared<BackendSet>(std::move(partitions));
diff --git a/libamqpprox/amqpprox_farmstore.cpp b/libamqpprox/amqpprox_farmstore.cpp
index f90f5b1..5b4bced 100644
--- a/libamqpprox/amqpprox_farmstore.cpp
+++ b/libamqpprox/amqpprox_farmstore.cpp
@@ -15,7 +15,9 @@
 */
 #include <amqpprox_farmstore.h>
 
+#include <algorithm>
 #include <iostream>
+#include <vector>
 
 namespace Bloomberg {
 namespace amqpprox {
@@ -53,6 +55,19 @@ void FarmStore::repartitionAll()
 }
 
 // ACCESSORS
+void FarmStore::repartitionFarmsWith(const std::string &backendName)
+{
+    std::lock_guard<std::mutex> lg(d_mutex);
+    for (auto &farm : d_farms) {
+        std::vector<std::string> members;
+        farm.second->members(&members);
+        if (std::find(members.begin(), members.end(), backendName) !=
+            members.end()) {
+            farm.second->repartition();
+        }
+    }
+}
+
 Farm &FarmStore::getFarmByName(const std::string &name) const
 {
     std::lock_guard<std::mutex> lg(d_mutex);
diff --git a/libamqpprox/amqpprox_farmstore.h b/libamqpprox/amqpprox_farmstore.h
index e1ec2d5..abaa769 100644
--- a/libamqpprox/amqpprox_farmstore.h
+++ b/libamqpprox/amqpprox_farmstore.h
@@ -60,6 +60,12 @@ class FarmStore {
      */
     void repartitionAll();
 
+    /**
+     * \brief Repartition the farms the specified backend is a member of
+     * \param backendName the name of the backend that was added or removed
+     */
+    void repartitionFarmsWith(const std::string &backendName);
+
     // ACCESSORS
     /**
      * \brief Return a modifiable reference to the farm associated with this
-- 
2.43.0


From e9993215c16443355ff3bba5a8b6f1387519c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:06 +0000
Subject: [PATCH 20/32] fix: a farm replaced or deleted while a connection
 chooses from it stays valid

---
 libamqpprox/amqpprox_connectionselector.cpp |  4 ++--
 libamqpprox/amqpprox_farmstore.cpp          |  8 +++++++-
 libamqpprox/amqpprox_farmstore.h            | 10 +++++++++-
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_connectionselector.cpp b/libamqpprox/amqpprox_connectionselector.cpp
index e6b1cb0..ab951d3 100644
--- a/libamqpprox/amqpprox_connectionselector.cpp
+++ b/libamqpprox/amqpprox_connectionselector.cpp
@@ -83,10 +83,10 @@ SessionState::ConnectionStatus ConnectionSelector::acquireConnection(
     if (isFarm) {
         // Return the BackendSet and BackendSelector generated by the Farm
         try {
-            const auto &farm = d_farmStore_p->getFarmByName(resourceName);
+            const auto farm = d_farmStore_p->shareFarmByName(resourceName);
 
             connectionManager.reset(new ConnectionManager(
-                farm.backendSet(), farm.backendSelector()));
+                farm->backendSet(), farm->backendSelector()));
         }
         catch (std::runtime_error &e) {
             LOG_WARN << "Unable to acquire backend from Farm: " << resourceName
diff --git a/libamqpprox/amqpprox_farmstore.cpp b/libamqpprox/amqpprox_farmstore.cpp
index 5b4bced..0637504 100644
--- a/libamqpprox/amqpprox_farmstore.cpp
+++ b/libamqpprox/amqpprox_farmstore.cpp
@@ -69,6 +69,12 @@ void FarmStore::repartitionFarmsWith(const std::string &backendName)
 }
 
 Farm &FarmStore::getFarmByName(const std::string &name) const
+{
+    return *shareFarmByName(name);
+}
+
+std::shared_ptr<Farm>
+FarmStore::shareFarmByName(const std::string &name) const
 {
     std::lock_guard<std::mutex> lg(d_mutex);
 
@@ -77,7 +83,7 @@ Farm &FarmStore::getFarmByName(const std::string &name) const
         throw std::runtime_error("No such farm");
     }
 
-    return *(farm->second);
+    return farm->second;
 }
 
 void FarmStore::print(std::ostream &os) const
diff --git a/libamqpprox/amqpprox_farmstore.h b/libamqpprox/amqpprox_farmstore.h
index abaa769..d4abfb5 100644
--- a/libamqpprox/amqpprox_farmstore.h
+++ b/libamqpprox/amqpprox_farmstore.h
@@ -33,7 +33,7 @@ namespace amqpprox {
 class FarmStore {
   private:
     // PRIVATE TYPES
-    using FarmMap = std::unordered_map<std::string, std::unique_ptr<Farm>>;
+    using FarmMap = std::unordered_map<std::string, std::shared_ptr<Farm>>;
 
     // DATA
     FarmMap            d_farms;
@@ -75,6 +75,14 @@ class FarmStore {
      */
     Farm &getFarmByName(const std::string &name) const;
 
+    /**
+     * \brief Return the farm associated with this name, which stays valid when
+     * it is removed from the store or replaced
+     * \param name of farm to retrieve
+     * \returns the Farm named
+     */
+    std::shared_ptr<Farm> shareFarmByName(const std::string &name) const;
+
     /**
      * \brief Print all of the farms in the store
      */
-- 
2.43.0


From dce08181bc85fb42d589872125ac3bc07fe936d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:32 +0000
Subject: [PATCH 21/32] fix: replacing the hostname mapper or authentication no
 longer frees it under the sessions that use it

---
 libamqpprox/amqpprox_server.cpp       | 12 ++++++--
 libamqpprox/amqpprox_sessionstate.cpp | 41 ++++++++++++++++++---------
 libamqpprox/amqpprox_sessionstate.h   |  3 ++
 3 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index d95f831..8ca68ea 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -243,6 +243,14 @@ void Server::doAccept(int port, bool secure)
                     std::make_shared<MaybeSecureSocketAdaptor<>>(
                         d_ioContext, d_egressTlsContext, false);
 
+                std::shared_ptr<HostnameMapper>         hostnameMapper;
+                std::shared_ptr<AuthInterceptInterface> authIntercept;
+                {
+                    std::lock_guard<std::mutex> lg(d_mutex);
+                    hostnameMapper = d_hostnameMapper;
+                    authIntercept  = d_authIntercept;
+                }
+
                 auto session =
                     std::make_shared<Session>(d_ioContext,
                                               incomingSocket,
@@ -251,9 +259,9 @@ void Server::doAccept(int port, bool secure)
                                               d_eventSource_p,
                                               d_bufferPool_p,
                                               &d_dnsResolver,
-                                              d_hostnameMapper,
+                                              hostnameMapper,
                                               d_localHostname,
-                                              d_authIntercept,
+                                              authIntercept,
                                               secure,
                                               d_limitManager);
 
diff --git a/libamqpprox/amqpprox_sessionstate.cpp b/libamqpprox/amqpprox_sessionstate.cpp
index c57e38f..517cbd1 100644
--- a/libamqpprox/amqpprox_sessionstate.cpp
+++ b/libamqpprox/amqpprox_sessionstate.cpp
@@ -59,8 +59,9 @@ void SessionState::setEgress(boost::asio::io_context       &ioContext,
                              boost::asio::ip::tcp::endpoint local,
                              boost::asio::ip::tcp::endpoint remote)
 {
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    auto mapper = hostnameMapper();
+    if (mapper) {
+        mapper->prime(ioContext, {local, remote});
     }
 
     std::lock_guard<std::mutex> lg(d_lock);
@@ -72,8 +73,9 @@ void SessionState::setIngress(boost::asio::io_context       &ioContext,
                               boost::asio::ip::tcp::endpoint local,
                               boost::asio::ip::tcp::endpoint remote)
 {
-    if (d_hostnameMapper) {
-        d_hostnameMapper->prime(ioContext, {local, remote});
+    auto mapper = hostnameMapper();
+    if (mapper) {
+        mapper->prime(ioContext, {local, remote});
     }
 
     std::lock_guard<std::mutex> lg(d_lock);
@@ -94,13 +96,18 @@ void SessionState::setHostnameMapper(
     if (!hostnameMapper) {
         return;
     }
-    std::lock_guard<std::mutex> lg(d_lock);
-    d_hostnameMapper = hostnameMapper;
-    d_hostnameMapper->prime(ioContext,
-                            {d_ingressLocalEndpoint,
-                             d_ingressRemoteEndpoint,
-                             d_egressLocalEndpoint,
-                             d_egressRemoteEndpoint});
+
+    {
+        std::lock_guard<std::mutex> lg(d_lock);
+        d_hostnameMapper = hostnameMapper;
+    }
+
+    // Not holding the lock, as the session needs it and this may take a while
+    auto ingress = getIngress();
+    auto egress  = getEgress();
+    hostnameMapper->prime(
+        ioContext,
+        {ingress.first, ingress.second, egress.first, egress.second});
 }
 
 void SessionState::setPaused(bool paused)
@@ -163,10 +170,18 @@ void SessionState::setLimitedConnection()
 std::string
 SessionState::hostname(const boost::asio::ip::tcp::endpoint &endpoint) const
 {
-    if (!d_hostnameMapper) {
+    auto mapper = hostnameMapper();
+    if (!mapper) {
         return boost::lexical_cast<std::string>(endpoint.address());
     }
-    return d_hostnameMapper->mapToHostname(endpoint);
+    return mapper->mapToHostname(endpoint);
+}
+
+std::shared_ptr<HostnameMapper> SessionState::hostnameMapper() const
+{
+    // It can be replaced by the control thread at any time
+    std::lock_guard<std::mutex> lg(d_lock);
+    return d_hostnameMapper;
 }
 
 void SessionState::getTotals(uint64_t *ingressPackets,
diff --git a/libamqpprox/amqpprox_sessionstate.h b/libamqpprox/amqpprox_sessionstate.h
index 683f589..f1d1cca 100644
--- a/libamqpprox/amqpprox_sessionstate.h
+++ b/libamqpprox/amqpprox_sessionstate.h
@@ -77,6 +77,9 @@ class SessionState {
     mutable std::mutex              d_lock;
     std::shared_ptr<HostnameMapper> d_hostnameMapper;
 
+    // PRIVATE ACCESSORS
+    std::shared_ptr<HostnameMapper> hostnameMapper() const;
+
   public:
     typedef std::pair<boost::asio::ip::tcp::endpoint,
                       boost::asio::ip::tcp::endpoint>
-- 
2.43.0


From dbbd212cc17d8844035b4b15a108a71e0b094d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 22/32] fix: a backend disconnect over TLS does not wait for
 the backend

---
 libamqpprox/amqpprox_session.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index eaa5fa8..ec4f654 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -998,9 +998,15 @@ void Session::handleSessionError(const char               *action,
                                  FlowType                  direction,
                                  boost::system::error_code ec)
 {
-    if (d_backendDisconnected && direction == FlowType::EGRESS) {
+    if (d_backendDisconnected && direction == FlowType::EGRESS &&
+        d_connector.state() != Connector::State::CLIENT_CLOSE_SENT &&
+        d_connector.state() != Connector::State::SERVER_CLOSE_SENT) {
         // The backend side was closed on purpose. The client is still
-        // connected, so the session isn't over.
+        // connected, so the session isn't over. The TLS shutdown may be
+        // waiting for input that will never come: nothing more can be
+        // exchanged with the backend, so don't wait for it.
+        boost::system::error_code closeEc;
+        d_clientSocket->close(closeEc);
         return;
     }
 
-- 
2.43.0


From ec7922e6e672941fad0ccb83e297b995142384a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 23/32] fix: a numeric address does not wait behind name
 lookups

---
 libamqpprox/amqpprox_dnsresolver.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/libamqpprox/amqpprox_dnsresolver.h b/libamqpprox/amqpprox_dnsresolver.h
index 2df5360..3738295 100644
--- a/libamqpprox/amqpprox_dnsresolver.h
+++ b/libamqpprox/amqpprox_dnsresolver.h
@@ -21,9 +21,11 @@
 #include <boost/asio.hpp>
 #include <boost/container_hash/hash.hpp>
 
+#include <charconv>
 #include <cstddef>
 #include <cstdint>
 #include <functional>
+#include <system_error>
 #include <unordered_map>
 
 namespace Bloomberg {
@@ -212,6 +214,22 @@ void DNSResolver::resolve(std::string_view       query_host,
         return;
     }
 
+    // A numeric host and port need no lookup, so they don't have to queue
+    // behind the lookups of names, which can be slow and are run one by one.
+    boost::system::error_code addressEc;
+    auto           address = boost::asio::ip::make_address(host, addressEc);
+    unsigned short port    = 0;
+    auto           parsed =
+        std::from_chars(service.data(), service.data() + service.size(), port);
+    if (!addressEc && parsed.ec == std::errc() &&
+        parsed.ptr == service.data() + service.size()) {
+        std::vector<TcpEndpoint> endpoints = {TcpEndpoint(address, port)};
+        d_ioContext.post([callback, endpoints] {
+            callback(boost::system::error_code(), endpoints);
+        });
+        return;
+    }
+
     auto resolveCb =
         [this, host, service, callback](const boost::system::error_code &ec,
                                         endpointIt endpoint) {
-- 
2.43.0


From 336dd511352d7f7f8e89bc7bd3e3d821452783a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 24/32] fix: STAT SEND to an unresolvable host reports it
 instead of ending the control thread

---
 libamqpprox/amqpprox_statcontrolcommand.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libamqpprox/amqpprox_statcontrolcommand.cpp b/libamqpprox/amqpprox_statcontrolcommand.cpp
index a6b72b2..61ea57e 100644
--- a/libamqpprox/amqpprox_statcontrolcommand.cpp
+++ b/libamqpprox/amqpprox_statcontrolcommand.cpp
@@ -27,6 +27,7 @@
 
 #include <boost/algorithm/string.hpp>
 #include <boost/asio.hpp>
+#include <boost/system/system_error.hpp>
 #include <boost/tokenizer.hpp>
 
 namespace Bloomberg {
@@ -323,9 +324,19 @@ void StatControlCommand::handleCommand(const std::string   &command,
             return;
         }
 
-        std::shared_ptr<StatsDPublisher> publisher =
-            std::make_shared<StatsDPublisher>(
+        std::shared_ptr<StatsDPublisher> publisher;
+        try {
+            publisher = std::make_shared<StatsDPublisher>(
                 &controlHandle->ioContext(), outputHost, outputPort);
+        }
+        catch (const boost::system::system_error &ex) {
+            outputFunctor("Failed to send stats to " + outputHost + ":" +
+                              std::to_string(outputPort) + ": " + ex.what() +
+                              "\n",
+                          true);
+            return;
+        }
+
         StatFunctor sf = [publisher](const StatSnapshot &statSnapshot) {
             publisher->publish(statSnapshot);
             return true;
-- 
2.43.0


From b3b82d238d6eb42e4370ea48928573bcf9d31df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 25/32] fix: keep a statsd datagram until it is sent

---
 libamqpprox/amqpprox_statsdpublisher.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libamqpprox/amqpprox_statsdpublisher.cpp b/libamqpprox/amqpprox_statsdpublisher.cpp
index 28b598a..6cb4f23 100644
--- a/libamqpprox/amqpprox_statsdpublisher.cpp
+++ b/libamqpprox/amqpprox_statsdpublisher.cpp
@@ -18,6 +18,8 @@
 #include <amqpprox_connectionstats.h>
 #include <amqpprox_logging.h>
 
+#include <memory>
+
 namespace Bloomberg {
 namespace amqpprox {
 
@@ -72,15 +74,18 @@ StatsDPublisher::StatsDPublisher(boost::asio::io_context *ioContext,
 
 void StatsDPublisher::sendMetric(const std::string &metric)
 {
-    auto writeHandler = [metric](const boost::system::error_code &ec,
-                                 std::size_t bytesTransferred) {
+    // The send might have to wait for room in the socket, the handler keeps
+    // the data until then
+    auto data         = std::make_shared<std::string>(metric);
+    auto writeHandler = [data](const boost::system::error_code &ec,
+                               std::size_t bytesTransferred) {
         if (ec) {
-            LOG_WARN << "Failed to send metric: " << metric
+            LOG_WARN << "Failed to send metric: " << *data
                      << "error code: " << ec;
         }
     };
     d_socket.async_send_to(
-        boost::asio::buffer(metric), d_statsdEndpoint, writeHandler);
+        boost::asio::buffer(*data), d_statsdEndpoint, writeHandler);
 }
 
 void StatsDPublisher::publish(const ConnectionStats &stats,
-- 
2.43.0


From 35024ff0b989277e230952f6beb7c11754fefdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 26/32] fix: write the outputs of a control session one after
 another

---
 libamqpprox/amqpprox_control.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/libamqpprox/amqpprox_control.cpp b/libamqpprox/amqpprox_control.cpp
index 1fc52db..c3b1d25 100644
--- a/libamqpprox/amqpprox_control.cpp
+++ b/libamqpprox/amqpprox_control.cpp
@@ -21,7 +21,9 @@
 
 #include <boost/algorithm/string.hpp>
 
+#include <deque>
 #include <iostream>
+#include <utility>
 
 using boost::asio::local::stream_protocol;
 using namespace boost::system;
@@ -54,6 +56,10 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
     boost::asio::streambuf  d_streamBuf;
     bool                    d_finished;
 
+    // Output not yet written, and whether it is the last of the session. Only
+    // the first is being written.
+    std::deque<std::pair<std::string, bool>> d_outputs;
+
   public:
     ControlSession(stream_protocol::socket socket,
                    Server                 *server,
@@ -108,13 +114,24 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
             return false;
         }
 
+        d_outputs.emplace_back(output, finishOutput);
+        if (d_outputs.size() == 1) {
+            writeOutput();
+        }
+
+        return true;
+    }
+
+    void writeOutput()
+    {
         auto self(shared_from_this());
-        auto spOutput = std::make_shared<std::string>(output);
         boost::asio::async_write(
             d_socket,
-            boost::asio::buffer(spOutput->data(), spOutput->length()),
-            [this, finishOutput, self, spOutput](error_code  ec,
-                                                 std::size_t length) {
+            boost::asio::buffer(d_outputs.front().first),
+            [this, self](error_code ec, std::size_t length) {
+                bool finishOutput = d_outputs.front().second;
+                d_outputs.pop_front();
+
                 if (ec) {
                     d_finished = true;
                     return;
@@ -126,10 +143,13 @@ class ControlSession : public std::enable_shared_from_this<ControlSession> {
                     d_socket.shutdown(stream_protocol::socket::shutdown_both,
                                       shutdownErr);
                     d_socket.close();
+                    return;
                 }
-            });
 
-        return true;
+                if (!d_outputs.empty()) {
+                    writeOutput();
+                }
+            });
     }
 
     void start() { readInput(); }
-- 
2.43.0


From 8434d9a2ce1722ec6bcf673b2609a02f3018f4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 27/32] fix: collect the statistics of a session that finished
 before it is removed

---
 libamqpprox/amqpprox_sessioncleanup.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_sessioncleanup.cpp b/libamqpprox/amqpprox_sessioncleanup.cpp
index 0985196..558f725 100644
--- a/libamqpprox/amqpprox_sessioncleanup.cpp
+++ b/libamqpprox/amqpprox_sessioncleanup.cpp
@@ -41,9 +41,12 @@ bool SessionCleanup::cleanup(Control *control, Server *server)
     // sessions that are disconnected to be deleted.
     auto visitor = [this, server, &sessionsDeleted](
                        const std::shared_ptr<Session> &session) {
+        // A session which finishes while it's being collected is left for the
+        // next time, so that its last statistics are collected too.
+        bool finished = session->finished();
         d_statCollector_p->collect(session->state());
 
-        if (session->finished()) {
+        if (finished) {
             LOG_TRACE << "Cleaning session: " << session->state();
             sessionsDeleted.push_back(session);
         }
-- 
2.43.0


From 753a20adc76982d0ea5aa8d37a84dd2eae19e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:18 +0000
Subject: [PATCH 28/32] fix: count the statistics of each session once

---
 libamqpprox/amqpprox_statcollector.cpp | 228 ++++++++-----------------
 libamqpprox/amqpprox_statcollector.h   |  45 +++--
 2 files changed, 98 insertions(+), 175 deletions(-)

diff --git a/libamqpprox/amqpprox_statcollector.cpp b/libamqpprox/amqpprox_statcollector.cpp
index bf5fb01..51c0671 100644
--- a/libamqpprox/amqpprox_statcollector.cpp
+++ b/libamqpprox/amqpprox_statcollector.cpp
@@ -26,7 +26,7 @@ namespace amqpprox {
 
 StatCollector::StatCollector()
 : d_current()
-, d_previous()
+, d_collected()
 , d_cpuMonitor_p(nullptr)
 , d_bufferPool_p(nullptr)
 , d_collectPerSourceStats(true)
@@ -35,7 +35,6 @@ StatCollector::StatCollector()
 
 void StatCollector::reset()
 {
-    d_previous.swap(d_current);
     StatSnapshot temp;
     d_current.swap(temp);
 }
@@ -52,23 +51,55 @@ void StatCollector::setBufferPool(BufferPool *pool)
 
 void StatCollector::collect(const SessionState &session)
 {
-    uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
-        ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
-        egressLatencyCount, egressLatencyTotal;
-
-    session.getTotals(&ingressPackets,
-                      &ingressFrames,
-                      &ingressBytes,
-                      &ingressLatencyTotal,
-                      &ingressLatencyCount,
-                      &egressPackets,
-                      &egressFrames,
-                      &egressBytes,
-                      &egressLatencyTotal,
-                      &egressLatencyCount);
-
-    using DiscoType  = SessionState::DisconnectType;
-    auto discoStatus = session.getDisconnectType();
+    Totals now;
+    session.getTotals(&now.d_ingressPackets,
+                      &now.d_ingressFrames,
+                      &now.d_ingressBytes,
+                      &now.d_ingressLatencyTotal,
+                      &now.d_ingressLatencyCount,
+                      &now.d_egressPackets,
+                      &now.d_egressFrames,
+                      &now.d_egressBytes,
+                      &now.d_egressLatencyTotal,
+                      &now.d_egressLatencyCount);
+
+    // The session contains ever increasing totals, here only what's new since
+    // it was last collected is counted. This is by session, because what a
+    // session is counted under can change, e.g. when hostnames get mapped.
+    const Totals   before = d_collected[session.id()];
+    const uint64_t ingressPackets =
+        now.d_ingressPackets - before.d_ingressPackets;
+    const uint64_t ingressFrames =
+        now.d_ingressFrames - before.d_ingressFrames;
+    const uint64_t ingressBytes = now.d_ingressBytes - before.d_ingressBytes;
+    const uint64_t ingressLatencyTotal =
+        now.d_ingressLatencyTotal - before.d_ingressLatencyTotal;
+    const uint64_t ingressLatencyCount =
+        now.d_ingressLatencyCount - before.d_ingressLatencyCount;
+    const uint64_t egressPackets =
+        now.d_egressPackets - before.d_egressPackets;
+    const uint64_t egressFrames = now.d_egressFrames - before.d_egressFrames;
+    const uint64_t egressBytes  = now.d_egressBytes - before.d_egressBytes;
+    const uint64_t egressLatencyTotal =
+        now.d_egressLatencyTotal - before.d_egressLatencyTotal;
+    const uint64_t egressLatencyCount =
+        now.d_egressLatencyCount - before.d_egressLatencyCount;
+
+    // The end of a session, and why it was refused, are counted the first time
+    // they are seen. It stays to be collected until it has been seen ended.
+    const bool paused     = session.getPaused();
+    now.d_authDenied      = session.getAuthDeniedConnection();
+    const bool authDenied = now.d_authDenied && !before.d_authDenied;
+    now.d_limited         = session.getLimitedConnection();
+    const bool limited    = now.d_limited && !before.d_limited;
+
+    using DiscoType   = SessionState::DisconnectType;
+    auto discoStatus  = session.getDisconnectType();
+    now.d_ended       = discoStatus != DiscoType::NOT_DISCONNECTED;
+    const bool active = !now.d_ended;
+    const bool ended  = now.d_ended && !before.d_ended;
+
+    d_collected[session.id()] = now;
 
     auto addStats = [&egressPackets,
                      &ingressPackets,
@@ -80,7 +111,11 @@ void StatCollector::collect(const SessionState &session)
                      &ingressLatencyTotal,
                      &egressLatencyCount,
                      &ingressLatencyCount,
-                     &session,
+                     &paused,
+                     &authDenied,
+                     &limited,
+                     &active,
+                     &ended,
                      &discoStatus](ConnectionStats &statsObject) {
         statsObject.statsValue("packetsSent") += egressPackets;
         statsObject.statsValue("packetsReceived") += ingressPackets;
@@ -93,32 +128,34 @@ void StatCollector::collect(const SessionState &session)
         statsObject.addDistributionStats(
             "receiveLatency", ingressLatencyTotal, ingressLatencyCount);
 
-        if (discoStatus == DiscoType::DISCONNECTED_CLIENT) {
+        if (active) {
+            statsObject.statsValue("activeConnectionCount") += 1;
+        }
+        else if (!ended) {
+            // Already counted
+        }
+        else if (discoStatus == DiscoType::DISCONNECTED_CLIENT) {
             statsObject.statsValue("removedConnectionClientSnapped") += 1;
         }
         else if (discoStatus == DiscoType::DISCONNECTED_SERVER) {
             statsObject.statsValue("removedConnectionBrokerSnapped") += 1;
         }
-        else if (discoStatus == DiscoType::DISCONNECTED_CLEANLY ||
-                 discoStatus == DiscoType::DISCONNECTED_PROXY) {
-            statsObject.statsValue("removedConnectionGraceful") += 1;
-        }
         else {
-            statsObject.statsValue("activeConnectionCount") += 1;
+            statsObject.statsValue("removedConnectionGraceful") += 1;
         }
 
         // We count paused separately
-        if (session.getPaused()) {
+        if (paused) {
             statsObject.statsValue("pausedConnectionCount") += 1;
         }
 
         // Maintains total denied connections because of auth failure
-        if (session.getAuthDeniedConnection()) {
+        if (authDenied) {
             statsObject.statsValue("authDeniedConnectionCount") += 1;
         }
 
         // Maintains total limited connection count
-        if (session.getLimitedConnection()) {
+        if (limited) {
             statsObject.statsValue("limitedConnectionCount") += 1;
         }
     };
@@ -150,89 +187,15 @@ void StatCollector::collect(const SessionState &session)
 
 void StatCollector::deletedSession(const SessionState &session)
 {
-    // Implementation notes:
-    //
-    // This method is required because the accumulated statistics are not kept
-    // per session in this component, and only accumulated across various axes.
-    // Each session object contains a counter of total bytes, packets and
-    // frames for each direction, because these are ever increasing totals,
-    // we latch the values and compare them in this class versus the last
-    // collected values. A-B-A type issues arise when the only session for one
-    // of the axes is deleted in one collection cycle, which must have its
-    // values counted, then it is reestablished in the subsequent cycle under a
-    // new session. This leaves a vhost/backend/source with a large count on
-    // the d_previous snapshot, and a small count on the d_current. These
-    // cannot be compared, so instead before resetting the accumulation
-    // interval, but after retrieving any statistics, we remove the
-    // accumulation totals for all the deleted sessions again in this method.
-
-    auto vhost = session.getVirtualHost();
-
-    // For backends we care about the broker's port to disambiguate
-    // the different brokers running on a host.  Note that we are
-    // using '_' as the separator, as ':' is not compatible with
-    // statsD.
-    auto backend =
-        session.hostname(session.getEgress().second) + "_" +
-        boost::lexical_cast<std::string>(session.getEgress().second.port());
-
-    // For sources we only look at the machine, not the ephemeral port
-    auto source = session.hostname(session.getIngress().second);
-
-    auto &vhostStats   = d_current.vhosts()[vhost];
-    auto &backendStats = d_current.backends()[backend];
-    auto &sourceStats  = d_current.sources()[source];
-
-    uint64_t ingressPackets, ingressFrames, ingressBytes, ingressLatencyCount,
-        ingressLatencyTotal, egressPackets, egressFrames, egressBytes,
-        egressLatencyCount, egressLatencyTotal;
-
-    session.getTotals(&ingressPackets,
-                      &ingressFrames,
-                      &ingressBytes,
-                      &ingressLatencyTotal,
-                      &ingressLatencyCount,
-                      &egressPackets,
-                      &egressFrames,
-                      &egressBytes,
-                      &egressLatencyTotal,
-                      &egressLatencyCount);
-
-    auto remStats = [&egressPackets,
-                     &ingressPackets,
-                     &egressFrames,
-                     &ingressFrames,
-                     &egressBytes,
-                     &ingressBytes,
-                     &egressLatencyTotal,
-                     &ingressLatencyTotal,
-                     &egressLatencyCount,
-                     &ingressLatencyCount](ConnectionStats &statsObject) {
-        statsObject.statsValue("packetsSent") -= egressPackets;
-        statsObject.statsValue("packetsReceived") -= ingressPackets;
-        statsObject.statsValue("framesSent") -= egressFrames;
-        statsObject.statsValue("framesReceived") -= ingressFrames;
-        statsObject.statsValue("bytesSent") -= egressBytes;
-        statsObject.statsValue("bytesReceived") -= ingressBytes;
-        statsObject.addDistributionStats(
-            "sendLatency", -egressLatencyTotal, -egressLatencyCount);
-        statsObject.addDistributionStats(
-            "receiveLatency", -ingressLatencyTotal, -ingressLatencyCount);
-    };
-
-    remStats(vhostStats);
-    remStats(backendStats);
-    remStats(sourceStats);
-    remStats(d_current.overall());
+    d_collected.erase(session.id());
 }
 
 void StatCollector::populateStats(StatSnapshot *snap)
 {
-    populateMap(&snap->sources(), d_current.sources(), d_previous.sources());
-    populateMap(&snap->vhosts(), d_current.vhosts(), d_previous.vhosts());
-    populateMap(
-        &snap->backends(), d_current.backends(), d_previous.backends());
-    populateProgramStats(&snap->overall());
+    snap->sources()  = d_current.sources();
+    snap->vhosts()   = d_current.vhosts();
+    snap->backends() = d_current.backends();
+    snap->overall()  = d_current.overall();
 
     if (d_cpuMonitor_p && d_cpuMonitor_p->valid()) {
         auto &pstats     = snap->process();
@@ -260,55 +223,6 @@ void StatCollector::populateStats(StatSnapshot *snap)
     }
 }
 
-void StatCollector::populateProgramStats(ConnectionStats *programStats) const
-{
-    ConnectionStats val;
-    val             = d_current.overall();
-    auto &prevStats = d_previous.overall();
-
-    for (auto &name : ConnectionStats::sessionMetrics()) {
-        val.statsValue(name) -= prevStats.statsValue(name);
-    }
-
-    for (auto &name : ConnectionStats::distributionMetrics()) {
-        const auto &prevDistribution = prevStats.distributionPair(name);
-        val.addDistributionStats(
-            name, -prevDistribution.first, -prevDistribution.second);
-    }
-
-    *programStats = val;
-}
-
-void StatCollector::populateMap(StatSnapshot::StatsMap       *map,
-                                const StatSnapshot::StatsMap &source,
-                                const StatSnapshot::StatsMap &previous) const
-{
-    StatSnapshot::StatsMap output(source);
-    ConnectionStats        zeroStats;
-
-    for (auto &k : output) {
-        const ConnectionStats *prevValue = &zeroStats;
-
-        auto it = previous.find(k.first);
-        if (it != previous.end()) {
-            prevValue = &it->second;
-        }
-
-        auto &val = k.second;
-        for (auto &name : ConnectionStats::sessionMetrics()) {
-            val.statsValue(name) -= prevValue->statsValue(name);
-        }
-
-        for (auto &name : ConnectionStats::distributionMetrics()) {
-            const auto &prevDistribution = prevValue->distributionPair(name);
-            val.addDistributionStats(
-                name, -prevDistribution.first, -prevDistribution.second);
-        }
-    }
-
-    map->swap(output);
-}
-
 void StatCollector::collectPerSourceStats(bool enabled)
 {
     d_collectPerSourceStats = enabled;
diff --git a/libamqpprox/amqpprox_statcollector.h b/libamqpprox/amqpprox_statcollector.h
index 3d19a15..39ffb94 100644
--- a/libamqpprox/amqpprox_statcollector.h
+++ b/libamqpprox/amqpprox_statcollector.h
@@ -35,10 +35,10 @@ class SessionState;
  * \brief Collect statistics from Sessions for a time periodicity.
  *
  * This accumulates statistics along a number of axes such as vhost, backend
- * and source. It is designed to accumulate between those points until reset,
- * upon which time some previous values are latched and the returned values are
- * based upon the difference from the previous values with respect to each
- * axis.
+ * and source. It is designed to accumulate between those points until reset.
+ * The totals of each session are latched when it is collected, and the
+ * returned values are based upon the difference from the previous values of
+ * the sessions.
  *
  * The basic workflow for dealing with this class is:
  *  1. Call `collect` with each session you want accumulated
@@ -49,10 +49,26 @@ class SessionState;
  */
 class StatCollector {
   private:
-    StatSnapshot d_current;
-    StatSnapshot d_previous;
-    CpuMonitor  *d_cpuMonitor_p;  // HELD NOT OWNED
-    BufferPool  *d_bufferPool_p;  // HELD NOT OWNED
+    struct Totals {
+        uint64_t d_ingressPackets      = 0;
+        uint64_t d_ingressFrames       = 0;
+        uint64_t d_ingressBytes        = 0;
+        uint64_t d_ingressLatencyTotal = 0;
+        uint64_t d_ingressLatencyCount = 0;
+        uint64_t d_egressPackets       = 0;
+        uint64_t d_egressFrames        = 0;
+        uint64_t d_egressBytes         = 0;
+        uint64_t d_egressLatencyTotal  = 0;
+        uint64_t d_egressLatencyCount  = 0;
+        bool     d_authDenied          = false;
+        bool     d_limited             = false;
+        bool     d_ended               = false;
+    };
+
+    StatSnapshot                         d_current;
+    std::unordered_map<uint64_t, Totals> d_collected;     // By session id
+    CpuMonitor                          *d_cpuMonitor_p;  // HELD NOT OWNED
+    BufferPool                          *d_bufferPool_p;  // HELD NOT OWNED
 
     std::atomic<bool> d_collectPerSourceStats;
 
@@ -75,9 +91,9 @@ class StatCollector {
     void collect(const SessionState &session);
 
     /**
-     * \brief Delete the accumulated metrics for deleted specified session
-     * \param session `SessionState` object, whose accumulated metrics will be
-     * removed from maintined collection
+     * \brief Forget the specified session, which will not be collected again
+     * \param session `SessionState` object, whose latched totals will be
+     * removed from maintained collection
      */
     void deletedSession(const SessionState &session);
 
@@ -105,13 +121,6 @@ class StatCollector {
      * \param snapshot pointere to `StatSnapshot`
      */
     void populateStats(StatSnapshot *snapshot);
-
-  private:
-    void populateProgramStats(ConnectionStats *programStats) const;
-
-    void populateMap(StatSnapshot::StatsMap       *map,
-                     const StatSnapshot::StatsMap &source,
-                     const StatSnapshot::StatsMap &previous) const;
 };
 
 }
-- 
2.43.0


From ae1d931ecb4928caf5ebe39ee89a693d270334d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:05 +0000
Subject: [PATCH 29/32] fix: a session closing gracefully without its backend
 ends when its client has answered

---
 libamqpprox/amqpprox_session.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libamqpprox/amqpprox_session.cpp b/libamqpprox/amqpprox_session.cpp
index ec4f654..23dbc03 100644
--- a/libamqpprox/amqpprox_session.cpp
+++ b/libamqpprox/amqpprox_session.cpp
@@ -998,15 +998,18 @@ void Session::handleSessionError(const char               *action,
                                  FlowType                  direction,
                                  boost::system::error_code ec)
 {
-    if (d_backendDisconnected && direction == FlowType::EGRESS &&
-        d_connector.state() != Connector::State::CLIENT_CLOSE_SENT &&
-        d_connector.state() != Connector::State::SERVER_CLOSE_SENT) {
-        // The backend side was closed on purpose. The client is still
-        // connected, so the session isn't over. The TLS shutdown may be
+    if (d_backendDisconnected && direction == FlowType::EGRESS) {
+        // The backend side was closed on purpose. The TLS shutdown may be
         // waiting for input that will never come: nothing more can be
         // exchanged with the backend, so don't wait for it.
         boost::system::error_code closeEc;
         d_clientSocket->close(closeEc);
+
+        // The client is still connected, so the session isn't over, unless it
+        // was only left to close the backend.
+        if (d_connector.state() == Connector::State::SERVER_CLOSE_SENT) {
+            disconnect(true);
+        }
         return;
     }
 
-- 
2.43.0


From 876f00b88f87eeefd9a474f0dab39e1e5d9b30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:35 +0000
Subject: [PATCH 30/32] fix: an accept of a stopped listener is not continued
 on a newer listener of the port

---
 libamqpprox/amqpprox_server.cpp | 19 ++++++++++++-------
 libamqpprox/amqpprox_server.h   |  3 ++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/libamqpprox/amqpprox_server.cpp b/libamqpprox/amqpprox_server.cpp
index 8ca68ea..3f524c3 100644
--- a/libamqpprox/amqpprox_server.cpp
+++ b/libamqpprox/amqpprox_server.cpp
@@ -70,6 +70,7 @@ Server::Server(ConnectionSelectorInterface *selector,
 , d_sessions()
 , d_deletingSessions()
 , d_listeningSockets()
+, d_listenerStarts()
 , d_dnsResolver(d_ioContext)
 , d_connectionSelector_p(selector)
 , d_eventSource_p(eventSource)
@@ -130,6 +131,7 @@ void Server::stop()
 void Server::startListening(int port, bool secure)
 {
     d_ioContext.dispatch([this, port, secure] {
+        uint64_t listenerStart = 0;
         {
             std::lock_guard<std::mutex> lg(d_mutex);
             auto                        it = d_listeningSockets.find(port);
@@ -168,9 +170,10 @@ void Server::startListening(int port, bool secure)
                 return;
             }
             d_listeningSockets.emplace(port, std::move(acceptor));
+            listenerStart = ++d_listenerStarts[port];
         }
 
-        doAccept(port, secure);
+        doAccept(port, secure, listenerStart);
     });
 }
 
@@ -217,11 +220,14 @@ void Server::doTimer()
     // listening.
 }
 
-void Server::doAccept(int port, bool secure)
+void Server::doAccept(int port, bool secure, uint64_t listenerStart)
 {
     std::lock_guard<std::mutex> lg(d_mutex);
     auto                        it = d_listeningSockets.find(port);
-    if (it == d_listeningSockets.end()) {
+    if (it == d_listeningSockets.end() ||
+        d_listenerStarts[port] != listenerStart) {
+        // The listener was stopped. The port may already be listened on again,
+        // with its own accept outstanding.
         return;
     }
 
@@ -229,7 +235,7 @@ void Server::doAccept(int port, bool secure)
 
     it->second.async_accept(
         *acceptedSocket,
-        [this, port, secure, acceptedSocket](error_code ec) {
+        [this, port, secure, listenerStart, acceptedSocket](error_code ec) {
             if (!ec) {
                 // The TLS settings are taken over when the adaptor is made, so
                 // this must not happen before there is a client: the settings
@@ -275,8 +281,7 @@ void Server::doAccept(int port, bool secure)
                     session->state().id());
             }
             else if (ec == boost::asio::error::operation_aborted) {
-                // The listener was stopped. The port may already be listened
-                // on again, with its own accept outstanding.
+                // The listener was stopped
                 return;
             }
             else {
@@ -285,7 +290,7 @@ void Server::doAccept(int port, bool secure)
                 // accept again.
             }
 
-            doAccept(port, secure);
+            doAccept(port, secure, listenerStart);
         });
 }
 
diff --git a/libamqpprox/amqpprox_server.h b/libamqpprox/amqpprox_server.h
index 0d6f01a..541c1ec 100644
--- a/libamqpprox/amqpprox_server.h
+++ b/libamqpprox/amqpprox_server.h
@@ -53,6 +53,7 @@ class Server {
     std::unordered_map<uint64_t, SessionPtr> d_sessions;
     std::unordered_set<SessionPtr>           d_deletingSessions;
     std::unordered_map<int, boost::asio::ip::tcp::acceptor> d_listeningSockets;
+    std::unordered_map<int, uint64_t> d_listenerStarts;  // By port
     DNSResolver                                             d_dnsResolver;
     ConnectionSelectorInterface    *d_connectionSelector_p;  // HELD NOT OWNED
     EventSource                    *d_eventSource_p;         // HELD NOT OWNED
@@ -179,7 +180,7 @@ class Server {
     DNSResolver *getDNSResolverPtr();
 
   private:
-    void doAccept(int port, bool secure);
+    void doAccept(int port, bool secure, uint64_t listenerStart);
     void doTimer();
     void timer();
     void closeListeners();
-- 
2.43.0


From e46f8b916f80938986c71bc4c2d370a7ff2987b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:23 +0000
Subject: [PATCH 31/32] fix: keep the reply to a method when a further one of
 the same read needs none

A client's own Close crossing the Close of a graceful disconnect is answered
and the backend told with a Close. When the client's CloseOk came in the same
read, that Close was dropped and the backend only saw the connection end.
---
 libamqpprox/amqpprox_packetprocessor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libamqpprox/amqpprox_packetprocessor.cpp b/libamqpprox/amqpprox_packetprocessor.cpp
index efd6121..ace2617 100644
--- a/libamqpprox/amqpprox_packetprocessor.cpp
+++ b/libamqpprox/amqpprox_packetprocessor.cpp
@@ -103,6 +103,12 @@ void PacketProcessor::process(FlowType direction, const Buffer &readBuffer)
             if (method.classType == 10) {  // Connection
                 d_connector.receive(method, direction);
 
+                if (d_connector.outBuffer().size() == 0) {
+                    // Nothing to send for this one, but there may be for one
+                    // that came before it in the same read
+                    continue;
+                }
+
                 if (d_connector.sendToIngressSide()) {
                     d_ingressWriteBuffer = d_connector.outBuffer();
                     d_egressWriteBuffer  = Buffer();
-- 
2.43.0


From 28a0a4da41cc787944597df0208e70546744fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:09 +0000
Subject: [PATCH 32/32] fix: tell clients of vhosts with long names why they
 are turned away

A Close whose text doesn't fit a short string couldn't be encoded, so the
client was dropped without one. Shorten the text instead.
---
 libamqpprox/amqpprox_connector.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libamqpprox/amqpprox_connector.cpp b/libamqpprox/amqpprox_connector.cpp
index b44f933..8b0a5cb 100644
--- a/libamqpprox/amqpprox_connector.cpp
+++ b/libamqpprox/amqpprox_connector.cpp
@@ -430,7 +430,13 @@ void Connector::synthesizeMessage(methods::Close  &replyMethod,
                                   uint16_t         methodId)
 {
     d_buffer = Buffer();  // forget inbound buffer
-    replyMethod.setReply(code, std::string(text), classId, methodId);
+    // The reply text is a short string: one that is too long can't be encoded,
+    // and nothing would be sent
+    replyMethod.setReply(
+        code,
+        std::string(text.substr(0, Constants::shortStringLimit())),
+        classId,
+        methodId);
     sendResponse(replyMethod, sendToIngressSide);
 }
 
-- 
2.43.0

