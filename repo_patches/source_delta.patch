From df37452122ec8faf61bcdc7f0a4efaec3fa9f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 01/48] fix: place data of a truncated last time window at the
 end of the simulation

The second participant of a serial coupling scheme without substeps stored the
data received for the end of the next window at the nominal window end, even
if max-time ends the last window earlier.
---
 src/cplscheme/BaseCouplingScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 5ea18b9..713f75b 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -209,7 +209,8 @@ void BaseCouplingScheme::receiveDataForWindowEnd(const m2n::PtrM2N &m2n, const D
   // buffer current time
   const impl::TimeHandler oldTime = _time;
   // set _time state to point to end of this window such that _time in receiveData is at end of window
-  _time.progressBy(_nextTimeWindowSize);
+  // the last window may be truncated by max-time
+  _time.progressBy(std::min(_nextTimeWindowSize, _time.untilEnd()));
   // receive data for end of window
   this->receiveData(m2n, receiveData);
   // reset time state;
-- 
2.43.0


From 33dcbdabdf210edab4990cb8725c70081e00caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 02/48] fix: report failed asynchronous socket operations as
 errors

SocketRequest ignored the result of asynchronous reads and writes. If the
remote participant died, receiving data via the point-to-point communication
silently returned stale or zero buffer contents instead of raising an error.
---
 src/com/SocketCommunication.cpp       | 24 ++++++++++++------------
 src/com/SocketRequest.cpp             | 10 +++++++++-
 src/com/SocketRequest.hpp             |  7 ++++++-
 src/com/SocketSendQueue.cpp           |  6 +++---
 src/com/SocketSendQueue.hpp           |  8 ++++++--
 src/m2n/PointToPointCommunication.cpp |  9 ++++++---
 6 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/com/SocketCommunication.cpp b/src/com/SocketCommunication.cpp
index a199f58..744a2c7 100644
--- a/src/com/SocketCommunication.cpp
+++ b/src/com/SocketCommunication.cpp
@@ -422,8 +422,8 @@ PtrRequest SocketCommunication::aSend(precice::span<const int> itemsToSend, Rank
 
   _queue.dispatch(_sockets[rankReceiver],
                   asio::buffer(itemsToSend.data(), itemsToSend.size() * sizeof(int)),
-                  [request] {
-                    std::static_pointer_cast<SocketRequest>(request)->complete();
+                  [request](boost::system::error_code const &error) {
+                    std::static_pointer_cast<SocketRequest>(request)->complete(error);
                   });
   return request;
 }
@@ -457,8 +457,8 @@ PtrRequest SocketCommunication::aSend(precice::span<const double> itemsToSend, R
 
   _queue.dispatch(_sockets[rankReceiver],
                   asio::buffer(itemsToSend.data(), itemsToSend.size() * sizeof(double)),
-                  [request] {
-                    std::static_pointer_cast<SocketRequest>(request)->complete();
+                  [request](boost::system::error_code const &error) {
+                    std::static_pointer_cast<SocketRequest>(request)->complete(error);
                   });
   return request;
 }
@@ -534,8 +534,8 @@ PtrRequest SocketCommunication::aSend(const bool &itemToSend, Rank rankReceiver)
 
   _queue.dispatch(_sockets[rankReceiver],
                   asio::buffer(&itemToSend, sizeof(bool)),
-                  [request] {
-                    std::static_pointer_cast<SocketRequest>(request)->complete();
+                  [request](boost::system::error_code const &error) {
+                    std::static_pointer_cast<SocketRequest>(request)->complete(error);
                   });
   return request;
 }
@@ -608,8 +608,8 @@ PtrRequest SocketCommunication::aReceive(precice::span<double> itemsToReceive,
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(itemsToReceive.data(), itemsToReceive.size() * sizeof(double)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
@@ -670,8 +670,8 @@ PtrRequest SocketCommunication::aReceive(int &itemToReceive, Rank rankSender)
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(&itemToReceive, sizeof(int)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
@@ -710,8 +710,8 @@ PtrRequest SocketCommunication::aReceive(bool &itemToReceive, Rank rankSender)
   try {
     asio::async_read(*_sockets[rankSender],
                      asio::buffer(&itemToReceive, sizeof(bool)),
-                     [request](boost::system::error_code const &, std::size_t) {
-                       std::static_pointer_cast<SocketRequest>(request)->complete();
+                     [request](boost::system::error_code const &error, std::size_t) {
+                       std::static_pointer_cast<SocketRequest>(request)->complete(error);
                      });
   } catch (std::exception &e) {
     PRECICE_ERROR("Receiving data from another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", e.what());
diff --git a/src/com/SocketRequest.cpp b/src/com/SocketRequest.cpp
index 75d9f69..a6a7290 100644
--- a/src/com/SocketRequest.cpp
+++ b/src/com/SocketRequest.cpp
@@ -1,12 +1,15 @@
 #include "SocketRequest.hpp"
+#include "logging/LogMacros.hpp"
+#include "logging/Logger.hpp"
 
 namespace precice::com {
 
-void SocketRequest::complete()
+void SocketRequest::complete(const boost::system::error_code &error)
 {
   {
     std::lock_guard<std::mutex> lock(_completeMutex);
 
+    _error    = error;
     _complete = true;
   }
 
@@ -26,5 +29,10 @@ void SocketRequest::wait()
 
   // Lock is acquired when the predicate is evaluated.
   _completeCondition.wait(lock, [this] { return _complete; });
+
+  if (_error) {
+    logging::Logger _log{"com::SocketRequest"};
+    PRECICE_ERROR("Exchanging data with another participant (using sockets) failed with a system error: {}. This often means that the other participant exited with an error (look there).", _error.message());
+  }
 }
 } // namespace precice::com
diff --git a/src/com/SocketRequest.hpp b/src/com/SocketRequest.hpp
index 0d929fd..ab94e3c 100644
--- a/src/com/SocketRequest.hpp
+++ b/src/com/SocketRequest.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <boost/system/error_code.hpp>
 #include <condition_variable>
 #include <mutex>
 #include "Request.hpp"
@@ -7,15 +8,19 @@
 namespace precice::com {
 class SocketRequest : public Request {
 public:
-  void complete();
+  /// Marks the request as completed with the result of the operation
+  void complete(const boost::system::error_code &error);
 
   bool test() override;
 
+  /// Waits for completion and raises an error if the operation failed
   void wait() override;
 
 private:
   bool _complete{false};
 
+  boost::system::error_code _error;
+
   std::condition_variable _completeCondition;
   std::mutex              _completeMutex;
 };
diff --git a/src/com/SocketSendQueue.cpp b/src/com/SocketSendQueue.cpp
index 10664bc..c56c730 100644
--- a/src/com/SocketSendQueue.cpp
+++ b/src/com/SocketSendQueue.cpp
@@ -20,7 +20,7 @@ SocketSendQueue::~SocketSendQueue()
 
 void SocketSendQueue::dispatch(std::shared_ptr<Socket>   sock,
                                boost::asio::const_buffer data,
-                               std::function<void()>     callback)
+                               Callback                  callback)
 {
   std::lock_guard<std::mutex> lock(_queueMutex);
   _itemQueue.push_back({std::move(sock), std::move(data), std::move(callback)});
@@ -45,8 +45,8 @@ void SocketSendQueue::process()
   _ready = false;
   asio::async_write(*(item.sock),
                     item.data,
-                    [item, this](boost::system::error_code const &, std::size_t) {
-                      item.callback();
+                    [item, this](boost::system::error_code const &error, std::size_t) {
+                      item.callback(error);
                       this->sendCompleted();
                     });
 }
diff --git a/src/com/SocketSendQueue.hpp b/src/com/SocketSendQueue.hpp
index c04b29b..b2d983f 100644
--- a/src/com/SocketSendQueue.hpp
+++ b/src/com/SocketSendQueue.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <boost/asio.hpp>
+#include <boost/system/error_code.hpp>
 #include <deque>
 #include <functional>
 #include <memory>
@@ -16,6 +17,9 @@ class SocketSendQueue {
 public:
   using Socket = boost::asio::ip::tcp::socket;
 
+  /// Called with the result of the completed send operation
+  using Callback = std::function<void(const boost::system::error_code &)>;
+
   SocketSendQueue() = default;
   ~SocketSendQueue();
 
@@ -23,7 +27,7 @@ public:
   SocketSendQueue &operator=(SocketSendQueue const &) = delete;
 
   /// Put data in the queue, start processing the queue.
-  void dispatch(std::shared_ptr<Socket> sock, boost::asio::const_buffer data, std::function<void()> callback);
+  void dispatch(std::shared_ptr<Socket> sock, boost::asio::const_buffer data, Callback callback);
 
   /// Notifies the queue that the last asynchronous send operation has completed.
   void sendCompleted();
@@ -35,7 +39,7 @@ private:
   struct SendItem {
     std::shared_ptr<Socket>   sock;
     boost::asio::const_buffer data;
-    std::function<void()>     callback;
+    Callback                  callback;
   };
 
   /// The queue, containing items to asynchronously send using boost.asio.
diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index cd3392c..d7d00d5 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -704,9 +704,12 @@ void PointToPointCommunication::checkBufferedRequests(bool blocking)
   PRECICE_TRACE(bufferedRequests.size());
   do {
     for (auto it = bufferedRequests.begin(); it != bufferedRequests.end();) {
-      if (it->first->test())
-        it = bufferedRequests.erase(it);
-      else
+      if (it->first->test()) {
+        auto request = it->first;
+        it           = bufferedRequests.erase(it);
+        if (not blocking)
+          request->wait(); // raises an error if the request failed, which doesn't matter when closing
+      } else
         ++it;
     }
     if (bufferedRequests.empty())
-- 
2.43.0


From bb1ae2305c4f53c87b1cb9ca36c90c5651b90d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 03/48] fix: keep samples consistent for coupling schemes with
 different window sizes

If a participant uses coupling schemes with different time-window-sizes, every
scheme moves its data to the next window on its own, while the participant only
trims up to the earliest window start. Mapped read data thus kept samples of
completed windows, which breaks reading past the last of them, and write
mappings tried to add samples of completed windows to moved data.
---
 src/precice/impl/DataContext.cpp     | 10 ++++++++++
 src/precice/impl/ParticipantImpl.cpp |  2 ++
 src/precice/impl/ReadDataContext.cpp | 12 ++++++++++++
 src/precice/impl/ReadDataContext.hpp |  8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/precice/impl/DataContext.cpp b/src/precice/impl/DataContext.cpp
index 19a51c8..135b0d1 100644
--- a/src/precice/impl/DataContext.cpp
+++ b/src/precice/impl/DataContext.cpp
@@ -131,6 +131,11 @@ int DataContext::mapData(std::optional<double> after, bool skipZero)
 
     auto &mapping = *context.mapping;
 
+    // The coupling scheme may have moved the toData past samples that are still required by other coupling schemes with a larger time-window-size
+    const auto beforeStart = [toTimes = context.toData->waveform().getTimes()](double time) -> bool {
+      return toTimes.size() > 0 && math::smaller(time, toTimes[0]);
+    };
+
     const auto dataDims = context.fromData->getDimensions();
 
     for (const auto &stample : context.fromData->stamples()) {
@@ -139,6 +144,11 @@ int DataContext::mapData(std::optional<double> after, bool skipZero)
         PRECICE_DEBUG("Skipping stample t={} (not after {})", stample.timestamp, *after);
         continue;
       }
+      // skip stamples of time windows that are already completed
+      if (beforeStart(stample.timestamp)) {
+        PRECICE_DEBUG("Skipping stample t={} (before start of target)", stample.timestamp);
+        continue;
+      }
       // skip existing stamples
       if (timestampExists(stample.timestamp)) {
         PRECICE_DEBUG("Skipping stample t={} (exists)", stample.timestamp);
diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index f57d477..6ef2d79 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -1685,6 +1685,8 @@ void ParticipantImpl::trimReadMappedData(double startOfTimeWindow, bool isTimeWi
         // For serial implicit first, we need to discard everything as everything is new
         // For parallel implicit, we need to discard everything as everything is new
         context.clearToDataFor(fromData);
+        // Coupling schemes with different time-window-sizes move their data independently
+        context.trimToDataBeforeFromData();
       } else {
         context.trimToDataAfterFor(fromData, startOfTimeWindow);
       }
diff --git a/src/precice/impl/ReadDataContext.cpp b/src/precice/impl/ReadDataContext.cpp
index cafc97c..d510709 100644
--- a/src/precice/impl/ReadDataContext.cpp
+++ b/src/precice/impl/ReadDataContext.cpp
@@ -81,6 +81,18 @@ void ReadDataContext::clearToDataFor(const cplscheme::ImplicitData &from)
   }
 }
 
+void ReadDataContext::trimToDataBeforeFromData()
+{
+  PRECICE_TRACE(getMeshName(), getDataName());
+  PRECICE_ASSERT(hasMapping());
+  for (auto &context : _mappingContexts) {
+    const auto fromStamples = context.fromData->stamples();
+    if (!fromStamples.empty()) {
+      context.toData->waveform().trimBefore(fromStamples.front().timestamp);
+    }
+  }
+}
+
 void ReadDataContext::trimToDataAfterFor(const cplscheme::ImplicitData &from, double t)
 {
   PRECICE_TRACE(getMeshName(), getDataName(), t);
diff --git a/src/precice/impl/ReadDataContext.hpp b/src/precice/impl/ReadDataContext.hpp
index 1404c93..61d450a 100644
--- a/src/precice/impl/ReadDataContext.hpp
+++ b/src/precice/impl/ReadDataContext.hpp
@@ -84,6 +84,14 @@ public:
    */
   void clearToDataFor(const cplscheme::ImplicitData &from);
 
+  /**
+   * @brief Trims all toData of associated mappings before the first sample of their fromData
+   *
+   * Coupling schemes move their data to the next time window individually.
+   * This may be earlier than the other coupling schemes of the participant, if they use different time-window-sizes.
+   */
+  void trimToDataBeforeFromData();
+
   /**
    * @brief Trims all toData of associated mappings after the given t
    *
-- 
2.43.0


From 825bf93a8ab87d32959a72a2fa78ea9c3af18443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 04/48] fix: reject API calls naming meshes or data after
 finalize() instead of crashing

---
 src/precice/impl/ValidationMacros.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/precice/impl/ValidationMacros.hpp b/src/precice/impl/ValidationMacros.hpp
index 5228d9e..46fea74 100644
--- a/src/precice/impl/ValidationMacros.hpp
+++ b/src/precice/impl/ValidationMacros.hpp
@@ -16,6 +16,9 @@
  */
 #include "utils/stacktrace.hpp"
 #define PRECICE_VALIDATE_MESH_NAME_IMPL(name)                     \
+  PRECICE_CHECK(_state != State::Finalized,                       \
+                "{}() cannot be called after finalize().",        \
+                __func__);                                        \
   PRECICE_CHECK(_accessor->hasMesh(name),                         \
                 "The mesh named \"{}\" is unknown to preCICE.{}", \
                 name, _accessor->hintForMesh(name));
@@ -107,8 +110,11 @@
  *
  * @attention Do not use this macro directly!
  */
-#define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data) \
-  PRECICE_CHECK(_accessor->hasData(mesh, data),     \
+#define PRECICE_VALIDATE_DATA_NAME_IMPL(mesh, data)        \
+  PRECICE_CHECK(_state != State::Finalized,                \
+                "{}() cannot be called after finalize().", \
+                __func__);                                 \
+  PRECICE_CHECK(_accessor->hasData(mesh, data),            \
                 "The given data \"{}\" is unknown to preCICE mesh \"{}\".{}", data, mesh, _accessor->hintForMeshData(mesh, data));
 
 /** Implementation of PRECICE_REQUIRE_DATA_READ()
-- 
2.43.0


From e4ca2cf38b2aacf1478228f1a76dd6b059d928c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 05/48] fix: look up data on the given mesh when validating API
 arguments

---
 src/precice/impl/ParticipantState.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/precice/impl/ParticipantState.cpp b/src/precice/impl/ParticipantState.cpp
index 75d3862..a2afa0e 100644
--- a/src/precice/impl/ParticipantState.cpp
+++ b/src/precice/impl/ParticipantState.cpp
@@ -167,14 +167,14 @@ WriteDataContext &ParticipantState::writeDataContext(std::string_view mesh, std:
 
 bool ParticipantState::hasData(std::string_view mesh, std::string_view data) const
 {
-  return std::any_of(
-      _meshContexts.begin(), _meshContexts.end(),
-      [data](const auto &mckv) {
-        const auto &meshData = mckv.second->mesh->data();
-        return std::any_of(meshData.begin(), meshData.end(), [data](const auto &dptr) {
-          return dptr->getName() == data;
-        });
-      });
+  const auto iter = _meshContexts.find(mesh);
+  if (iter == _meshContexts.end()) {
+    return false;
+  }
+  const auto &meshData = iter->second->mesh->data();
+  return std::any_of(meshData.begin(), meshData.end(), [data](const auto &dptr) {
+    return dptr->getName() == data;
+  });
 }
 
 bool ParticipantState::isDataUsed(std::string_view mesh, std::string_view data) const
@@ -484,6 +484,10 @@ std::string ParticipantState::hintForMeshData(std::string_view mesh, std::string
   // Is there other data in the given mesh?
   auto localData = meshContext(mesh).mesh->availableData();
 
+  if (localData.empty()) {
+    return " This mesh doesn't know any data.";
+  }
+
   if (localData.size() == 1) {
     return " This mesh only knows data \"" + localData.front() + "\".";
   }
-- 
2.43.0


From edf35f8d02f76ca665783a85aff0ec3629d88446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 06/48] fix: check that preCICE is initialized in all functions
 of the C bindings

---
 extras/bindings/c/src/preciceC.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/bindings/c/src/preciceC.cpp b/extras/bindings/c/src/preciceC.cpp
index cfc1c08..2d8f058 100644
--- a/extras/bindings/c/src/preciceC.cpp
+++ b/extras/bindings/c/src/preciceC.cpp
@@ -126,6 +126,7 @@ try {
 
 double precicec_getMaxTimeStepSize()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   return impl->getMaxTimeStepSize();
 } catch (::precice::Error &e) {
   std::abort();
@@ -409,6 +410,7 @@ void precicec_setMeshAccessRegion(
     const char   *meshName,
     const double *boundingBox)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   auto bbSize = static_cast<long unsigned>(impl->getMeshDimensions(meshName)) * 2;
   impl->setMeshAccessRegion(meshName, {boundingBox, bbSize});
 } catch (::precice::Error &e) {
@@ -421,6 +423,7 @@ void precicec_getMeshVertexIDsAndCoordinates(
     int        *ids,
     double     *coordinates)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   auto coordinatesSize = static_cast<long unsigned>(impl->getMeshDimensions(meshName) * size);
   impl->getMeshVertexIDsAndCoordinates(meshName, {ids, static_cast<unsigned long>(size)}, {coordinates, coordinatesSize});
 } catch (::precice::Error &e) {
@@ -429,6 +432,7 @@ try {
 
 void precicec_startProfilingSection(const char *sectionName)
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   impl->startProfilingSection(sectionName);
 } catch (::precice::Error &e) {
   std::abort();
@@ -436,6 +440,7 @@ try {
 
 void precicec_stopLastProfilingSection()
 try {
+  PRECICE_CHECK(impl != nullptr, errormsg);
   impl->stopLastProfilingSection();
 } catch (::precice::Error &e) {
   std::abort();
-- 
2.43.0


From b67c4bb1040ff674f2ccc82ab8b703a6109a46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 07/48] fix: reject unknown meshes in requiresGradientDataFor()

---
 src/precice/impl/ParticipantImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 6ef2d79..98f300f 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -727,6 +727,7 @@ bool ParticipantImpl::requiresMeshConnectivityFor(std::string_view meshName) con
 bool ParticipantImpl::requiresGradientDataFor(std::string_view meshName,
                                               std::string_view dataName) const
 {
+  PRECICE_VALIDATE_MESH_NAME(meshName);
   PRECICE_VALIDATE_DATA_NAME(meshName, dataName);
   // Read data never requires gradients
   if (!_accessor->isDataWrite(meshName, dataName))
-- 
2.43.0


From e0de016bfd1375b0008621b4c88e1c0199022974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 08/48] fix: reject advance() before initialize() or after
 finalize() instead of crashing

---
 src/precice/impl/ParticipantImpl.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 98f300f..8c1d8c5 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -398,12 +398,6 @@ void ParticipantImpl::advance(
   // Enforce that all user-created events are stopped to prevent incorrect nesting.
   PRECICE_CHECK(_userEvents.empty(), "There are unstopped user defined events. Please stop them using stopLastProfilingSection() before calling advance().");
 
-  // Events for the solver time, stopped when we enter, restarted when we leave advance
-  PRECICE_ASSERT(_solverAdvanceEvent, "The advance event is created in initialize");
-  _solverAdvanceEvent->stop();
-
-  Event e("advance", profiling::Fundamental, profiling::Synchronize);
-
   PRECICE_CHECK(_state != State::Constructed, "initialize() has to be called before advance().");
   PRECICE_CHECK(_state != State::Finalized, "advance() cannot be called after finalize().");
   PRECICE_CHECK(_state == State::Initialized, "initialize() has to be called before advance().");
@@ -415,6 +409,12 @@ void ParticipantImpl::advance(
   PRECICE_CHECK(!math::equals(computedTimeStepSize, 0.0), "advance() cannot be called with a time step size of 0.");
   PRECICE_CHECK(computedTimeStepSize > 0.0, "advance() cannot be called with a negative time step size {}.", computedTimeStepSize);
 
+  // Events for the solver time, stopped when we enter, restarted when we leave advance
+  PRECICE_ASSERT(_solverAdvanceEvent, "The advance event is created in initialize");
+  _solverAdvanceEvent->stop();
+
+  Event e("advance", profiling::Fundamental, profiling::Synchronize);
+
   _numberAdvanceCalls++;
 
 #ifndef NDEBUG
-- 
2.43.0


From 125defabdf9baa18e6845a7a4f8efe70b0e55859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:00 +0000
Subject: [PATCH 09/48] fix: accept the preconditioner tag in Aitken
 acceleration

Reading the tag always queries update-on-threshold, which was not declared
for Aitken. Every configuration of a preconditioner aborted in debug mode.
---
 src/acceleration/config/AccelerationConfiguration.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index 0bda69a..ba01569 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -488,6 +488,11 @@ void AccelerationConfiguration::addTypeSpecificSubtags(
                                                    VALUE_RESIDUAL_SUM_PRECONDITIONER})
                                       .setDocumentation("The type of the preconditioner.");
     tagPreconditioner.addAttribute(attrPreconditionerType);
+    auto attrpreconditionerUpdateOnThreshold = XMLAttribute<bool>(ATTR_PRECOND_UPDATE_ON_THRESHOLD, true)
+                                                   .setDocumentation("To update the preconditioner weights after the first time window: "
+                                                                     "`true`: The preconditioner weights are only updated if the weights will change by more than one order of magnitude. "
+                                                                     "`false`: The preconditioner weights are updated after every iteration.");
+    tagPreconditioner.addAttribute(attrpreconditionerUpdateOnThreshold);
     auto nonconstTWindows = makeXMLAttribute(ATTR_PRECOND_NONCONST_TIME_WINDOWS, -1)
                                 .setDocumentation(
                                     "After the given number of time windows, the preconditioner weights "
-- 
2.43.0


From 3c50d4549338738a412da21a3d46b38bbbe811c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:15 +0000
Subject: [PATCH 10/48] fix: respect the scaling of acceleration data in Aitken
 acceleration

The attribute is accepted, but the constant preconditioner always used 1.0.
---
 src/acceleration/config/AccelerationConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acceleration/config/AccelerationConfiguration.cpp b/src/acceleration/config/AccelerationConfiguration.cpp
index ba01569..76b92cd 100644
--- a/src/acceleration/config/AccelerationConfiguration.cpp
+++ b/src/acceleration/config/AccelerationConfiguration.cpp
@@ -205,7 +205,7 @@ void AccelerationConfiguration::xmlTagCallback(
     _meshName      = callingTag.getStringAttributeValue(ATTR_MESH);
     double scaling = 1.0;
 
-    if (_config.type == VALUE_IQNILS || _config.type == VALUE_IQNIMVJ) {
+    if (_config.type == VALUE_IQNILS || _config.type == VALUE_IQNIMVJ || _config.type == VALUE_AITKEN) {
       scaling = callingTag.getDoubleAttributeValue(ATTR_SCALING);
     }
 
-- 
2.43.0


From 85b838d48006a9fd1c71acda619089156adf379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 11/48] fix: let IQN-IMVJ converge in the first iteration of a
 simulation

Without columns in the least-squares system there is neither a factorization
to filter nor an update of the Jacobian.
---
 src/acceleration/IQNIMVJAcceleration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 751cdd6..87d80b4 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -648,7 +648,8 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
   //_info2<<'\n';
 
   // if efficient update of imvj is enabled
-  if (not _alwaysBuildJacobian || _imvjRestart) {
+  // without columns, e.g. after a single iteration, there is no new information
+  if ((not _alwaysBuildJacobian || _imvjRestart) && getLSSystemCols() > 0) {
     // need to apply the preconditioner, as all data structures are reverted after
     // call to computeQNUpdate. Need to call this before the preconditioner is updated.
 
-- 
2.43.0


From 959769dc1159b428874942d59ba8854cd19ac4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 12/48] fix: do not add the update of a past window again in
 IQN-IMVJ restart mode

If a window converges in its first iteration, Wtil still belongs to an
earlier window and is already part of the stored Jacobian.
---
 src/acceleration/IQNIMVJAcceleration.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acceleration/IQNIMVJAcceleration.cpp b/src/acceleration/IQNIMVJAcceleration.cpp
index 87d80b4..006517b 100644
--- a/src/acceleration/IQNIMVJAcceleration.cpp
+++ b/src/acceleration/IQNIMVJAcceleration.cpp
@@ -683,6 +683,11 @@ void IQNIMVJAcceleration::specializedIterationsConverged(
       // reverts Z' = R^-1 * Q^T * P^-1 as Z := Z' * P
       pseudoInverse(Z);
 
+      // columns changed since Wtil was last computed, e.g. if the window converged in its first iteration
+      if (_resetLS) {
+        buildWtil();
+      }
+
       // push back unscaled pseudo Inverse, Wtil is also unscaled.
       // all objects in Wtil chunk and Z chunk are NOT PRECONDITIONED
       _WtilChunk.push_back(_Wtil);
-- 
2.43.0


From c7bde603ec4de27b1b51de57b24c9ab07681758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:05 +0000
Subject: [PATCH 13/48] fix: respect all time stamps when handling bound
 violations in quasi-Newton acceleration

---
 src/acceleration/BaseQNAcceleration.cpp | 21 ++++++++++++++++++---
 src/acceleration/BaseQNAcceleration.hpp |  6 ++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 59ce142..949a659 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -114,6 +114,15 @@ void BaseQNAcceleration::initialize(
   _firstTimeWindow = true;
 }
 
+Eigen::Index BaseQNAcceleration::getNumberOfEntries(DataID id, const DataMap &cplData) const
+{
+  // The entries of all time stamps are only known after the time grids have been initialized
+  if (auto entries = _numberOfEntries.find(id); entries != _numberOfEntries.end()) {
+    return entries->second;
+  }
+  return cplData.at(id)->values().size();
+}
+
 std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &data, DataMap &cplData) const
 {
   Eigen::Index        offset       = 0;
@@ -121,7 +130,7 @@ std::vector<DataID> BaseQNAcceleration::checkBoundViolation(Eigen::VectorXd &dat
 
   // check for bound violations
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    const Eigen::Index size = getNumberOfEntries(id, cplData);
 
     if (std::find(_idsWithBounds.begin(), _idsWithBounds.end(), id) == _idsWithBounds.end()) {
       offset += size;
@@ -152,7 +161,7 @@ void BaseQNAcceleration::onBoundViolationsClamp(Eigen::VectorXd &data, DataMap &
 {
   Eigen::Index offset = 0;
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    const Eigen::Index size = getNumberOfEntries(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -179,7 +188,7 @@ void BaseQNAcceleration::onBoundViolationsScale(Eigen::VectorXd &data, DataMap &
   double       scaleStep = 0.0;
 
   for (auto id : _dataIDs) {
-    Eigen::Index size = cplData.at(id)->values().size();
+    const Eigen::Index size = getNumberOfEntries(id, cplData);
 
     if (std::find(violatingIDs.begin(), violatingIDs.end(), id) == violatingIDs.end()) {
       offset += size;
@@ -864,6 +873,12 @@ void BaseQNAcceleration::initializeVectorsAndPreconditioner(const DataMap &cplDa
   // Size of values
   const size_t dataSize = std::accumulate(_dataIDs.begin(), _dataIDs.end(), (size_t) 0, [&](size_t sum, int id) { return addTimeSliceSize(sum, id, _timeGrids.value()); });
 
+  // Number of entries of each data in the concatenated values
+  _numberOfEntries.clear();
+  for (int id : _dataIDs) {
+    _numberOfEntries[id] = static_cast<Eigen::Index>(addTimeSliceSize(0, id, _timeGrids.value()));
+  }
+
   _values              = Eigen::VectorXd::Zero(dataSize);
   _oldValues           = Eigen::VectorXd::Zero(dataSize);
   _oldXTilde           = Eigen::VectorXd::Zero(dataSize);
diff --git a/src/acceleration/BaseQNAcceleration.hpp b/src/acceleration/BaseQNAcceleration.hpp
index 295589d..5582355 100644
--- a/src/acceleration/BaseQNAcceleration.hpp
+++ b/src/acceleration/BaseQNAcceleration.hpp
@@ -330,6 +330,9 @@ private:
    */
   virtual void specializedInitializeVectorsAndPreconditioner(const DataMap &cplData) = 0;
 
+  /// @brief Returns the number of entries of a data in the concatenated values, which contain all time stamps of the window
+  Eigen::Index getNumberOfEntries(DataID id, const DataMap &cplData) const;
+
   /// @brief Samples and concatenates the data and old data in cplData into a long vector
   void concatenateCouplingData(Eigen::VectorXd &data, Eigen::VectorXd &oldData, const DataMap &cplData, std::vector<int> dataIDs, precice::time::TimeGrids timeGrids, double windowStart) const;
 
@@ -340,6 +343,9 @@ private:
   /// If _reducedTimeGrids is true then this will only contain the last time stamp of the time window, see https://doi.org/10.1002/nme.6443
   std::optional<time::TimeGrids> _primaryTimeGrids;
 
+  /// @brief Number of entries of each data in _values, which contain all time stamps of the window
+  std::map<DataID, Eigen::Index> _numberOfEntries;
+
   /// @brief Concatenation of all primary data involved in the QN system.
   Eigen::VectorXd _primaryValues;
 
-- 
2.43.0


From bbee7d6be709164c55f38a9f00192962abb34944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 14/48] fix: respect the vertex order in the radial geometric
 multiscale mapping

Midpoints and assignments were computed from mesh indices although the
vertices were sorted along the axis.
---
 src/mapping/RadialGeoMultiscaleMapping.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mapping/RadialGeoMultiscaleMapping.cpp b/src/mapping/RadialGeoMultiscaleMapping.cpp
index 30a18ee..099922d 100644
--- a/src/mapping/RadialGeoMultiscaleMapping.cpp
+++ b/src/mapping/RadialGeoMultiscaleMapping.cpp
@@ -50,7 +50,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
       // Compute the midpoints of the 1D input mesh
       for (size_t i = 0; i < (inSize - 1); i++) {
         auto axisPositionCurrent = inputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
-        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i] + 1].coord(effectiveCoordinate);
+        auto axisPositionNext    = inputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(inSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -68,7 +68,7 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < inSize);
           ++index;
         }
-        _vertexIndicesSpread.push_back(index);
+        _vertexIndicesSpread.push_back(ordered_vertex_indices[index]);
       }
     } else {
       PRECICE_ASSERT(_type == MultiscaleType::COLLECT);
@@ -90,8 +90,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
                        });
       // Compute the midpoints of the 1D output mesh
       for (size_t i = 0; i < (outSize - 1); i++) {
-        auto axisPositionCurrent = output()->vertex(i).coord(effectiveCoordinate);
-        auto axisPositionNext    = output()->vertex(i + 1).coord(effectiveCoordinate);
+        auto axisPositionCurrent = outputVerticesRef[ordered_vertex_indices[i]].coord(effectiveCoordinate);
+        auto axisPositionNext    = outputVerticesRef[ordered_vertex_indices[i + 1]].coord(effectiveCoordinate);
         axisMidpoints(i)         = (axisPositionCurrent + axisPositionNext) / 2;
       }
       axisMidpoints(outSize - 1) = std::numeric_limits<double>::max(); // large number, such that vertices after the last midpoint are still assigned
@@ -108,8 +108,8 @@ void RadialGeoMultiscaleMapping::computeMapping()
           PRECICE_ASSERT(index + 1 < outSize);
           ++index;
         }
-        _vertexIndicesCollect.push_back(index);
-        counters[index] += 1;
+        _vertexIndicesCollect.push_back(ordered_vertex_indices[index]);
+        counters[ordered_vertex_indices[index]] += 1;
       }
       _vertexCounter = std::move(counters);
     }
-- 
2.43.0


From 0f8b5f5314be0a3604ab2d64fac5dfa8e99bf763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 15/48] fix: reduce the polynomial of an RBF system with fewer
 vertices than parameters

The separate polynomial of small clusters was not unique, so that the
conservative mapping did not conserve the sum of the data.
---
 src/mapping/RadialBasisFctSolver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mapping/RadialBasisFctSolver.hpp b/src/mapping/RadialBasisFctSolver.hpp
index 30ee5c9..86e2e0d 100644
--- a/src/mapping/RadialBasisFctSolver.hpp
+++ b/src/mapping/RadialBasisFctSolver.hpp
@@ -392,8 +392,8 @@ RadialBasisFctSolver<RADIAL_BASIS_FUNCTION_T>::RadialBasisFctSolver(RADIAL_BASIS
       const double conditionNumber = svd.singularValues()(0) / std::max(svd.singularValues()(svd.singularValues().size() - 1), math::NUMERICAL_ZERO_DIFFERENCE);
       PRECICE_DEBUG("Condition number: {}", conditionNumber);
 
-      // Disable one axis
-      if (conditionNumber > 1e5) {
+      // Disable one axis, also if there are fewer vertices than polynomial parameters, i.e., if the polynomial is not unique
+      if (conditionNumber > 1e5 || inputIDs.size() < polyParams) {
         reduceActiveAxis(inputMesh, inputIDs, _localActiveAxis);
         polyParams = getNumberOfPolynomials();
       } else {
-- 
2.43.0


From b5da14db06cff859f795bb9481e2b26f7697f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 16/48] fix: ignore dead axes when searching vertices within
 the support radius

Vertices that are only further away than the support radius along a dead
axis were missing in the matrices of the iterative RBF mapping and in the
received mesh of parallel participants.
---
 src/mapping/PetRadialBasisFctMapping.hpp  | 17 +++++++++++--
 src/mapping/RadialBasisFctBaseMapping.hpp | 30 ++++++++++++++++++++---
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/mapping/PetRadialBasisFctMapping.hpp b/src/mapping/PetRadialBasisFctMapping.hpp
index 001a1e7..4380e79 100644
--- a/src/mapping/PetRadialBasisFctMapping.hpp
+++ b/src/mapping/PetRadialBasisFctMapping.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #ifndef PRECICE_NO_PETSC
 
+#include <algorithm>
 #include <iterator>
 #include <map>
 #include <numeric>
@@ -144,6 +145,9 @@ private:
   /// Preallocate matrix C and saves the coefficients using a boost::geometry spatial tree for neighbor search
   VertexData bgPreallocationMatrixC(const mesh::PtrMesh inMesh);
 
+  /// Candidates for vertices of the mesh within the support radius around a given vertex, ignoring dead axes
+  std::vector<VertexID> getVerticesInSupport(const mesh::PtrMesh &mesh, const mesh::Vertex &center) const;
+
   VertexData bgPreallocationMatrixA(const mesh::PtrMesh inMesh, const mesh::PtrMesh outMesh);
 
   /** load the initialGuess for a given dimension or allocates the storage for the first iteration
@@ -837,6 +841,15 @@ void PetRadialBasisFctMapping<RADIAL_BASIS_FUNCTION_T>::printMappingInfo(int dim
                constraintName, dim, polynomialName);
 }
 
+template <typename RADIAL_BASIS_FUNCTION_T>
+std::vector<VertexID> PetRadialBasisFctMapping<RADIAL_BASIS_FUNCTION_T>::getVerticesInSupport(const mesh::PtrMesh &mesh, const mesh::Vertex &center) const
+{
+  if (std::find(this->_deadAxis.begin(), this->_deadAxis.end(), true) == this->_deadAxis.end()) {
+    return mesh->index().getVerticesInsideBox(center, this->_basisFunction.getSupportRadius());
+  }
+  return mesh->index().getVerticesInsideBox(this->expandBySupportRadius(mesh::BoundingBox{center.getCoords(), center.getCoords()}));
+}
+
 template <typename RADIAL_BASIS_FUNCTION_T>
 typename PetRadialBasisFctMapping<RADIAL_BASIS_FUNCTION_T>::VertexData
 PetRadialBasisFctMapping<RADIAL_BASIS_FUNCTION_T>::bgPreallocationMatrixC(mesh::PtrMesh const inMesh)
@@ -878,7 +891,7 @@ PetRadialBasisFctMapping<RADIAL_BASIS_FUNCTION_T>::bgPreallocationMatrixC(mesh::
 
     // -- PREALLOCATES THE COEFFICIENTS --
 
-    for (auto const i : inMesh->index().getVerticesInsideBox(inVertex, supportRadius)) {
+    for (auto const i : getVerticesInSupport(inMesh, inVertex)) {
       const mesh::Vertex &vj = inMesh->vertex(i);
 
       PetscInt mappedCol = vj.getGlobalIndex() + polyparams;
@@ -965,7 +978,7 @@ PetRadialBasisFctMapping<RADIAL_BASIS_FUNCTION_T>::bgPreallocationMatrixA(mesh::
     }
 
     // -- PREALLOCATE THE COEFFICIENTS --
-    for (auto i : inMesh->index().getVerticesInsideBox(oVertex, supportRadius)) {
+    for (auto i : getVerticesInSupport(inMesh, oVertex)) {
       const mesh::Vertex &inVertex = inMesh->vertex(i);
       distance                     = oVertex.getCoords() - inVertex.getCoords();
 
diff --git a/src/mapping/RadialBasisFctBaseMapping.hpp b/src/mapping/RadialBasisFctBaseMapping.hpp
index 5dd8581..0958508 100644
--- a/src/mapping/RadialBasisFctBaseMapping.hpp
+++ b/src/mapping/RadialBasisFctBaseMapping.hpp
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <limits>
+
 #include "impl/BasisFunctions.hpp"
 #include "mapping/Mapping.hpp"
+#include "mesh/BoundingBox.hpp"
 #include "mesh/Filter.hpp"
 #include "precice/impl/Types.hpp"
 
@@ -66,6 +69,9 @@ protected:
    */
   int getPolynomialParameters() const;
 
+  /// Expands a bounding box by the support radius, dead axes are ignored by the mapping and hence not bounded
+  mesh::BoundingBox expandBySupportRadius(mesh::BoundingBox bb) const;
+
 private:
   precice::logging::Logger _log{"mapping::RadialBasisFctBaseMapping"};
 
@@ -116,6 +122,24 @@ int RadialBasisFctBaseMapping<RADIAL_BASIS_FUNCTION_T>::getPolynomialParameters(
   return 1 + getDimensions() - deadDimensions;
 }
 
+template <typename RADIAL_BASIS_FUNCTION_T>
+mesh::BoundingBox RadialBasisFctBaseMapping<RADIAL_BASIS_FUNCTION_T>::expandBySupportRadius(mesh::BoundingBox bb) const
+{
+  if (bb.isDefault()) {
+    return bb;
+  }
+  bb.expandBy(_basisFunction.getSupportRadius());
+  Eigen::VectorXd min = bb.minCorner();
+  Eigen::VectorXd max = bb.maxCorner();
+  for (size_t d = 0; d < _deadAxis.size(); ++d) {
+    if (_deadAxis[d]) {
+      min[d] = std::numeric_limits<double>::lowest();
+      max[d] = std::numeric_limits<double>::max();
+    }
+  }
+  return mesh::BoundingBox{std::move(min), std::move(max)};
+}
+
 /*
  * For the re-partitioning process with RBF mappings, also compare Figure 69 in Benjamin U's thesis (page 89).
  * https://mediatum.ub.tum.de/doc/1320661/document.pdf
@@ -138,8 +162,7 @@ void RadialBasisFctBaseMapping<RADIAL_BASIS_FUNCTION_T>::tagMeshFirstRound()
 
   // Tags all vertices that are inside otherMesh's bounding box, enlarged by the support radius
   if (_basisFunction.hasCompactSupport()) {
-    auto bb = otherMesh->getBoundingBox();
-    bb.expandBy(_basisFunction.getSupportRadius());
+    const auto bb = expandBySupportRadius(otherMesh->getBoundingBox());
 
     // We don't make use of the index tree here, because constructing the index tree on the
     // (unfiltered) mesh is expensive
@@ -184,8 +207,7 @@ void RadialBasisFctBaseMapping<RADIAL_BASIS_FUNCTION_T>::tagMeshSecondRound()
     }
   }
   // Enlarge bb by support radius
-  bb.expandBy(_basisFunction.getSupportRadius());
-  auto vertices = mesh->index().getVerticesInsideBox(bb);
+  auto vertices = mesh->index().getVerticesInsideBox(expandBySupportRadius(bb));
   std::for_each(vertices.begin(), vertices.end(), [&mesh](size_t v) { mesh->vertex(v).tag(); });
 }
 } // namespace precice::mapping
-- 
2.43.0


From acdcaa6cc47a1ec85c2e5385def5ace39bbbc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 17/48] fix: avoid a division by zero in the axial geometric
 multiscale mapping

A line vertex whose only vertex of the cross section coincides with it has
no extent.
---
 src/mapping/AxialGeoMultiscaleMapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mapping/AxialGeoMultiscaleMapping.cpp b/src/mapping/AxialGeoMultiscaleMapping.cpp
index c28b1ff..ed00a5c 100644
--- a/src/mapping/AxialGeoMultiscaleMapping.cpp
+++ b/src/mapping/AxialGeoMultiscaleMapping.cpp
@@ -285,7 +285,7 @@ void AxialGeoMultiscaleMapping::mapConsistent(const time::Sample &inData, Eigen:
           outputValues((i * outDataDimensions) + effectiveCoordinate) = inputValues((static_cast<size_t>(_nearestVertex[i]) * inDataDimensions) + effectiveCoordinate);
         } else if (_profile == MultiscaleProfile::PARABOLIC) {
           if (_crossSection == MultiscaleCrossSection::CIRCLE) {
-            double r_hat                                                = _vertexDistances[i] / R;
+            double r_hat                                                = R > 0.0 ? _vertexDistances[i] / R : 0.0;
             outputValues((i * outDataDimensions) + effectiveCoordinate) = (4.0 / 3.0) * inputValues((static_cast<size_t>(_nearestVertex[i]) * inDataDimensions) + effectiveCoordinate) * (1.0 - r_hat * r_hat);
           } else if (_crossSection == MultiscaleCrossSection::SQUARE) {
             constexpr double umax_over_umean = 2.096;
-- 
2.43.0


From 729cffb7f0fa7345457b41cf86610bfe94617f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 18/48] fix: zero received data on ranks without a connection
 to the remote participant

A rank with vertices, but without any vertex used by the remote participant, has
no mappings in its point-to-point communication. receive() then returned before
zeroing the passed buffer, hence such ranks used uninitialized memory as received data.
---
 src/m2n/PointToPointCommunication.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/m2n/PointToPointCommunication.cpp b/src/m2n/PointToPointCommunication.cpp
index d7d00d5..a6db3f3 100644
--- a/src/m2n/PointToPointCommunication.cpp
+++ b/src/m2n/PointToPointCommunication.cpp
@@ -630,10 +630,11 @@ void PointToPointCommunication::send(precice::span<double const> itemsToSend, in
 
 void PointToPointCommunication::receive(precice::span<double> itemsToReceive, int valueDimension)
 {
-  if (_mappings.empty() || itemsToReceive.empty()) {
+  if (itemsToReceive.empty()) {
     return;
   }
 
+  // Items which no remote rank sends to us are zero
   std::fill(itemsToReceive.begin(), itemsToReceive.end(), 0.0);
 
   for (auto &mapping : _mappings) {
-- 
2.43.0


From 2b91ce0757b11896958290ad218fabcb89272f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 19/48] fix: allocate as many serialized gradients as the data
 has

The size of a data already contains its dimensions, hence the buffer for the
gradients of a vectorial data was too large. Secondary ranks send the whole
buffer to the primary rank when gathering it, which reads less than that, so
that the remainder was taken for later messages.
---
 src/com/SerializedStamples.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/SerializedStamples.cpp b/src/com/SerializedStamples.cpp
index 95f8ddb..4127cb5 100644
--- a/src/com/SerializedStamples.cpp
+++ b/src/com/SerializedStamples.cpp
@@ -40,7 +40,7 @@ void SerializedStamples::allocate(const cplscheme::CouplingData &data)
   _values = Eigen::VectorXd(_timeSteps * data.getSize());
 
   if (data.hasGradient()) {
-    _gradients = Eigen::VectorXd(_timeSteps * data.getSize() * data.meshDimensions() * data.getDimensions());
+    _gradients = Eigen::VectorXd(_timeSteps * data.gradientsRows() * data.gradientsCols());
   }
 }
 
-- 
2.43.0


From cd9b96d887e10affbfd6193d3c6e8a3d5fcb3807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 20/48] fix: keep the complete elements used by barycentric
 mappings when filtering received meshes

A target on the boundary of an element gives some of its vertices no weight. Only
the weighted vertices were tagged, so the filtered mesh of a parallel participant
lost the element and the final mapping picked another, possibly distant one.
The result of the mapping hence depended on the partitioning.
---
 src/mapping/BarycentricBaseMapping.cpp | 7 +++++++
 src/mapping/BarycentricBaseMapping.hpp | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/mapping/BarycentricBaseMapping.cpp b/src/mapping/BarycentricBaseMapping.cpp
index 6c14713..33bd145 100644
--- a/src/mapping/BarycentricBaseMapping.cpp
+++ b/src/mapping/BarycentricBaseMapping.cpp
@@ -31,6 +31,7 @@ void BarycentricBaseMapping::clear()
 {
   PRECICE_TRACE();
   _operations.clear();
+  _unweighted.clear();
   _hasComputedMapping = false;
 }
 
@@ -151,6 +152,10 @@ void BarycentricBaseMapping::tagMeshFirstRound()
     PRECICE_ASSERT(!math::equals(op.weight, 0.0));
     tagged[op.in] = true;
   }
+  // The filtered mesh has to keep the complete elements, otherwise the final mapping uses others
+  for (const auto id : _unweighted) {
+    tagged[id] = true;
+  }
 
   // Now tag all vertices to be tagged in the second phase.
   size_t ntagged = 0;
@@ -171,6 +176,8 @@ void BarycentricBaseMapping::addPolation(VertexID out, const Polation &p)
   for (const auto &we : p.getWeightedElements()) {
     if (!precice::math::equals(we.weight, 0.0)) {
       _operations.push_back({out, we.vertexID, we.weight});
+    } else {
+      _unweighted.push_back(we.vertexID);
     }
   }
 }
diff --git a/src/mapping/BarycentricBaseMapping.hpp b/src/mapping/BarycentricBaseMapping.hpp
index 4c1a75d..0acd08d 100644
--- a/src/mapping/BarycentricBaseMapping.hpp
+++ b/src/mapping/BarycentricBaseMapping.hpp
@@ -44,6 +44,10 @@ protected:
   void postProcessOperations();
 
   std::vector<Operation> _operations;
+
+private:
+  /// Vertices of the used elements which have no weight. Finding the elements again requires them.
+  std::vector<VertexID> _unweighted;
 };
 
 } // namespace precice::mapping
-- 
2.43.0


From fe4a258bb23e206a6648b1fc364c72df548098c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 21/48] fix: log the residual of absolute-or-relative
 convergence measures

---
 src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp b/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp
index 35d44fa..0ab7c2c 100644
--- a/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp
+++ b/src/cplscheme/impl/AbsoluteOrRelativeConvergenceMeasure.hpp
@@ -107,6 +107,11 @@ public:
       return _normDiff / _norm;
   }
 
+  double getNormResidual() override
+  {
+    return getNormAbsResidual();
+  }
+
   std::string getAbbreviation() const override
   {
     return "AbsOrRel";
-- 
2.43.0


From 4fc4206dd528988c89a1e27e05bb1ab5dcaac558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 22/48] fix: number exports by completed time windows for
 coupling schemes with different time window sizes

---
 src/precice/impl/ParticipantImpl.cpp | 8 ++++++--
 src/precice/impl/ParticipantImpl.hpp | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 8c1d8c5..c9ab42a 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -1756,9 +1756,13 @@ void ParticipantImpl::handleExports(ExportTiming timing)
   }
 
   ParticipantState::IntermediateExport exp;
-  exp.timewindow = _couplingScheme->getTimeWindows() - 1;
+  exp.complete = _couplingScheme->isTimeWindowComplete();
+  if (exp.complete) {
+    // Coupling schemes with different time window sizes complete at different times
+    ++_numberCompletedTimeWindows;
+  }
+  exp.timewindow = _numberCompletedTimeWindows;
   exp.iteration  = _numberAdvanceCalls;
-  exp.complete   = _couplingScheme->isTimeWindowComplete();
   exp.final      = !_couplingScheme->isCouplingOngoing();
   exp.time       = _couplingScheme->getTime();
   _accessor->exportIntermediate(exp);
diff --git a/src/precice/impl/ParticipantImpl.hpp b/src/precice/impl/ParticipantImpl.hpp
index 75c2020..c870af0 100644
--- a/src/precice/impl/ParticipantImpl.hpp
+++ b/src/precice/impl/ParticipantImpl.hpp
@@ -353,6 +353,9 @@ private:
   /// Counts calls to advance for plotting.
   long int _numberAdvanceCalls = 0;
 
+  /// Counts the completed time windows, used to number the exports
+  int _numberCompletedTimeWindows = 0;
+
   /// Counts the amount of samples mapped in write mappings executed in the latest advance
   int _executedWriteMappings = 0;
 
-- 
2.43.0


From 0f5d84583634b305ae61872f9e5905ce72a19343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 23/48] fix: decide collectively on the connectivity of watch
 integrals

---
 src/precice/impl/WatchIntegral.cpp | 31 +++++++++++++++++-------------
 src/precice/impl/WatchIntegral.hpp |  6 ++++++
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/precice/impl/WatchIntegral.cpp b/src/precice/impl/WatchIntegral.cpp
index 7ee8079..6b9c200 100644
--- a/src/precice/impl/WatchIntegral.cpp
+++ b/src/precice/impl/WatchIntegral.cpp
@@ -45,11 +45,22 @@ WatchIntegral::WatchIntegral(
 
 void WatchIntegral::initialize()
 {
+  // All ranks need to agree on the connectivity as some partitions may not contain any
+  int localEdges  = static_cast<int>(_mesh->edges().size());
+  int globalEdges = localEdges;
+  if (utils::IntraComm::isParallel()) {
+    utils::IntraComm::allreduceSum(localEdges, globalEdges);
+  }
+  _hasConnectivity = globalEdges > 0;
+
   // Do not add surface area column if there is no connectivity
-  if ((not utils::IntraComm::isSecondary()) and (not _mesh->edges().empty())) {
-    _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+  if (_hasConnectivity && !_hasSurfaceArea) {
+    _hasSurfaceArea = true;
+    if (not utils::IntraComm::isSecondary()) {
+      _txtWriter.addData("SurfaceArea", io::TXTTableWriter::DOUBLE);
+    }
   }
-  PRECICE_WARN_IF(_isScalingOn && _mesh->edges().empty(),
+  PRECICE_WARN_IF(_isScalingOn && !_hasConnectivity,
                   "Watch-integral is configured with scaling option on; "
                   "however, mesh {} does not contain connectivity information. "
                   "Therefore, the integral will be calculated without scaling.",
@@ -85,7 +96,7 @@ void WatchIntegral::exportIntegralData(
   }
 
   // Calculate surface area only if there is connectivity information
-  if (not _mesh->edges().empty()) {
+  if (_hasSurfaceArea) {
     double surfaceArea = calculateSurfaceArea();
     if (utils::IntraComm::getSize() > 1) {
       double surfaceAreaSum = 0.0;
@@ -95,13 +106,6 @@ void WatchIntegral::exportIntegralData(
     if (not utils::IntraComm::isSecondary()) {
       _txtWriter.writeData("SurfaceArea", surfaceArea);
     }
-  } else {
-    // Empty partitions should also call reduceSum to prevent deadlock
-    if (utils::IntraComm::getSize() > 1) {
-      double surfaceArea    = 0.0;
-      double surfaceAreaSum = 0.0;
-      utils::IntraComm::reduceSum(surfaceArea, surfaceAreaSum);
-    }
   }
 }
 
@@ -111,7 +115,7 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
   const auto      sample = data->waveform().sample(time);
   Eigen::VectorXd sum    = Eigen::VectorXd::Zero(dim);
 
-  if (_mesh->edges().empty() || (not _isScalingOn)) {
+  if (!_hasConnectivity || (not _isScalingOn)) {
     for (const auto &vertex : _mesh->vertices()) {
       int offset = vertex.getID() * dim;
       for (int i = 0; i < dim; i++) {
@@ -119,6 +123,8 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
       }
     }
     return sum;
+  } else if (_mesh->empty()) { // Connectivity information is given on other ranks only
+    return sum;
   } else { // Connectivity information is given
     return mesh::integrateSurface(_mesh, sample.values());
   }
@@ -126,7 +132,6 @@ Eigen::VectorXd WatchIntegral::calculateIntegral(double time, const mesh::PtrDat
 
 double WatchIntegral::calculateSurfaceArea() const
 {
-  PRECICE_ASSERT(not _mesh->edges().empty());
   double surfaceArea = 0.0;
   if (_mesh->getDimensions() == 3) {
     for (const auto &face : _mesh->triangles()) {
diff --git a/src/precice/impl/WatchIntegral.hpp b/src/precice/impl/WatchIntegral.hpp
index f8056af..63d8de5 100644
--- a/src/precice/impl/WatchIntegral.hpp
+++ b/src/precice/impl/WatchIntegral.hpp
@@ -52,6 +52,12 @@ private:
 
   bool _isScalingOn;
 
+  /// Does any partition of the mesh contain connectivity?
+  bool _hasConnectivity = false;
+
+  /// Does the table contain the surface area?
+  bool _hasSurfaceArea = false;
+
   Eigen::VectorXd calculateIntegral(double time, const mesh::PtrData &data) const;
 
   double calculateSurfaceArea() const;
-- 
2.43.0


From 4e2ecd47202d6942df34588f8eb5f0696b1d96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 24/48] fix: keep just-in-time writes which only contribute to
 the polynomial of the PUM

---
 src/mapping/PartitionOfUnityMapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mapping/PartitionOfUnityMapping.hpp b/src/mapping/PartitionOfUnityMapping.hpp
index ccb536c..42c6e5d 100644
--- a/src/mapping/PartitionOfUnityMapping.hpp
+++ b/src/mapping/PartitionOfUnityMapping.hpp
@@ -417,7 +417,8 @@ void PartitionOfUnityMapping<RADIAL_BASIS_FUNCTION_T>::completeJustInTimeMapping
 
   for (std::size_t c = 0; c < _clusters.size(); ++c) {
     // If there is no contribution, we don't have to evaluate
-    if (cache.p[c].squaredNorm() > 0) {
+    // Loads outside of the support of all basis functions only contribute to the polynomial
+    if (cache.p[c].squaredNorm() > 0 || cache.polynomialContributions[c].squaredNorm() > 0) {
       _clusters[c].evaluateConservativeCache(cache.polynomialContributions[c], cache.p[c], buffer);
     }
   }
-- 
2.43.0


From 15eb393ec62d947ac889363b75663f62b57efffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 25/48] fix: allow just-in-time PUM mappings on ranks without
 vertices

---
 src/mapping/PartitionOfUnityMapping.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mapping/PartitionOfUnityMapping.hpp b/src/mapping/PartitionOfUnityMapping.hpp
index 42c6e5d..25e99d1 100644
--- a/src/mapping/PartitionOfUnityMapping.hpp
+++ b/src/mapping/PartitionOfUnityMapping.hpp
@@ -411,8 +411,9 @@ template <typename RADIAL_BASIS_FUNCTION_T>
 void PartitionOfUnityMapping<RADIAL_BASIS_FUNCTION_T>::completeJustInTimeMapping(impl::MappingDataCache &cache, Eigen::Ref<Eigen::MatrixXd> buffer)
 {
   PRECICE_TRACE();
-  PRECICE_ASSERT(!cache.p.empty());
-  PRECICE_ASSERT(!cache.polynomialContributions.empty());
+  // The mesh and thus the set of clusters may be empty on this rank
+  PRECICE_ASSERT(cache.p.size() == _clusters.size());
+  PRECICE_ASSERT(cache.polynomialContributions.size() == _clusters.size());
   precice::profiling::Event e("map.pou.completeJustInTimeMapping.From" + input()->getName());
 
   for (std::size_t c = 0; c < _clusters.size(); ++c) {
-- 
2.43.0


From 00b7e984cbce0d51aab40e5f22d7d29782a68aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 26/48] fix: reject repeated vertices in edges, triangles and
 tetrahedra

---
 src/precice/impl/ParticipantImpl.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index c9ab42a..5ce0f21 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -863,6 +863,7 @@ void ParticipantImpl::setMeshEdge(
   using impl::errorInvalidVertexID;
   PRECICE_CHECK(mesh.isValidVertexID(first), errorInvalidVertexID(first));
   PRECICE_CHECK(mesh.isValidVertexID(second), errorInvalidVertexID(second));
+  PRECICE_CHECK(first != second, "setMeshEdge() was called with repeated Vertex IDs ({}, {}).", first, second);
   Event         e{fmt::format("setMeshEdge.{}", meshName), profiling::API};
   mesh::Vertex &v0 = mesh.vertex(first);
   mesh::Vertex &v1 = mesh.vertex(second);
@@ -896,6 +897,12 @@ void ParticipantImpl::setMeshEdges(
                   std::distance(vertices.begin(), last));
   }
 
+  for (unsigned long i = 0; i < vertices.size() / 2; ++i) {
+    PRECICE_CHECK(vertices[2 * i] != vertices[2 * i + 1],
+                  "setMeshEdges() was called with repeated Vertex IDs ({}, {}) for edge nr {}.",
+                  vertices[2 * i], vertices[2 * i + 1], i);
+  }
+
   Event e{fmt::format("setMeshEdges.{}", meshName), profiling::API};
 
   for (unsigned long i = 0; i < vertices.size() / 2; ++i) {
@@ -961,6 +968,12 @@ void ParticipantImpl::setMeshTriangles(
                   std::distance(vertices.begin(), last));
   }
 
+  for (unsigned long i = 0; i < vertices.size() / 3; ++i) {
+    PRECICE_CHECK(utils::unique_elements(utils::make_array(vertices[3 * i], vertices[3 * i + 1], vertices[3 * i + 2])),
+                  "setMeshTriangles() was called with repeated Vertex IDs ({}, {}, {}) for triangle nr {}.",
+                  vertices[3 * i], vertices[3 * i + 1], vertices[3 * i + 2], i);
+  }
+
   Event e{fmt::format("setMeshTriangles.{}", meshName), profiling::API};
 
   for (unsigned long i = 0; i < vertices.size() / 3; ++i) {
@@ -1116,6 +1129,9 @@ void ParticipantImpl::setMeshTetrahedron(
   PRECICE_CHECK(mesh.isValidVertexID(second), errorInvalidVertexID(second));
   PRECICE_CHECK(mesh.isValidVertexID(third), errorInvalidVertexID(third));
   PRECICE_CHECK(mesh.isValidVertexID(fourth), errorInvalidVertexID(fourth));
+  PRECICE_CHECK(utils::unique_elements(utils::make_array(first, second, third, fourth)),
+                "setMeshTetrahedron() was called with repeated Vertex IDs ({}, {}, {}, {}).",
+                first, second, third, fourth);
   mesh::Vertex &A = mesh.vertex(first);
   mesh::Vertex &B = mesh.vertex(second);
   mesh::Vertex &C = mesh.vertex(third);
@@ -1153,6 +1169,12 @@ void ParticipantImpl::setMeshTetrahedra(
                   std::distance(vertices.begin(), last));
   }
 
+  for (unsigned long i = 0; i < vertices.size() / 4; ++i) {
+    PRECICE_CHECK(utils::unique_elements(utils::make_array(vertices[4 * i], vertices[4 * i + 1], vertices[4 * i + 2], vertices[4 * i + 3])),
+                  "setMeshTetrahedra() was called with repeated Vertex IDs ({}, {}, {}, {}) for tetrahedron nr {}.",
+                  vertices[4 * i], vertices[4 * i + 1], vertices[4 * i + 2], vertices[4 * i + 3], i);
+  }
+
   Event e{fmt::format("setMeshTetrahedra.{}", meshName), profiling::API};
 
   for (unsigned long i = 0; i < vertices.size() / 4; ++i) {
-- 
2.43.0


From 92597dc0e7fcc6aac66d32cd892c99c2b958c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 27/48] fix: keep mesh elements whose vertices only share their
 coordinates with others

---
 src/mesh/Mesh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesh/Mesh.cpp b/src/mesh/Mesh.cpp
index 1ad926d..9fc04d3 100644
--- a/src/mesh/Mesh.cpp
+++ b/src/mesh/Mesh.cpp
@@ -425,22 +425,25 @@ void Mesh::preprocess()
 
 void Mesh::removeDuplicates()
 {
+  // Primitives are duplicates if they use the same vertices, different vertices may share their coordinates
+  auto sameVertices = [](const auto &lhs, const auto &rhs) { return !(lhs < rhs) && !(rhs < lhs); };
+
   // Remove duplicate tetrahedra
   auto tetrahedraCnt = _tetrahedra.size();
   std::sort(_tetrahedra.begin(), _tetrahedra.end());
-  auto lastTetrahedron = std::unique(_tetrahedra.begin(), _tetrahedra.end());
+  auto lastTetrahedron = std::unique(_tetrahedra.begin(), _tetrahedra.end(), sameVertices);
   _tetrahedra          = TetraContainer{_tetrahedra.begin(), lastTetrahedron};
 
   // Remove duplicate triangles
   auto triangleCnt = _triangles.size();
   std::sort(_triangles.begin(), _triangles.end());
-  auto lastTriangle = std::unique(_triangles.begin(), _triangles.end());
+  auto lastTriangle = std::unique(_triangles.begin(), _triangles.end(), sameVertices);
   _triangles        = TriangleContainer{_triangles.begin(), lastTriangle};
 
   // Remove duplicate edges
   auto edgeCnt = _edges.size();
   std::sort(_edges.begin(), _edges.end());
-  auto lastEdge = std::unique(_edges.begin(), _edges.end());
+  auto lastEdge = std::unique(_edges.begin(), _edges.end(), sameVertices);
   _edges        = EdgeContainer{_edges.begin(), lastEdge};
 
   PRECICE_DEBUG("Compression removed {} tetrahedra ({} to {}), {} triangles ({} to {}), and {} edges ({} to {})",
-- 
2.43.0


From a26482686d35be25420a4ee48c3dbf4fd9ebb89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 28/48] fix: detect quads of collinear vertices instead of
 looping or accepting them

---
 src/math/geometry.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/math/geometry.cpp b/src/math/geometry.cpp
index 25f6065..9da3977 100644
--- a/src/math/geometry.cpp
+++ b/src/math/geometry.cpp
@@ -140,6 +140,11 @@ Eigen::Vector2d projectVector(
   return projectedVector;
 }
 
+namespace {
+/// Relative tolerance used to detect collapsed quads
+constexpr double QUAD_TOLERANCE = 1e-12;
+} // namespace
+
 ConvexityResult isConvexQuad(std::array<Eigen::VectorXd, 4> coords)
 {
   /*
@@ -150,6 +155,8 @@ ConvexityResult isConvexQuad(std::array<Eigen::VectorXd, 4> coords)
                              [](const auto &v) { return v.size() == 2 || v.size() == 3; }),
                  "This only works in 2D or 3D.");
 
+  const auto vertexCoords = coords; // not transformed
+
   // Check that quad is planar and project to a new plane
   if (coords[0].size() == 3) {
 
@@ -229,10 +236,24 @@ ConvexityResult isConvexQuad(std::array<Eigen::VectorXd, 4> coords)
     // result 'hull'
     currentVertex = nextVertex;
     validVertexIDCounter++;
-  } while (currentVertex != idLowestPoint); // While we don't come to first point
+  } while (currentVertex != idLowestPoint && validVertexIDCounter < 4); // While we don't come to first point
 
   // Ordering of quad is hull 0-1-2-3-0
-  result.convex = (validVertexIDCounter == 4);
+  // Rounding may prevent the hull of (nearly) collinear points from closing
+  result.convex = (validVertexIDCounter == 4) && (currentVertex == idLowestPoint);
+
+  // The diagonals of collinear points are parallel
+  if (result.convex) {
+    auto diagonal = [&](int from, int to) {
+      Eigen::Vector3d d        = Eigen::Vector3d::Zero();
+      const auto     &order    = result.vertexOrder;
+      d.head(coords[0].size()) = vertexCoords[order[to]] - vertexCoords[order[from]];
+      return d;
+    };
+    const Eigen::Vector3d d02 = diagonal(0, 2);
+    const Eigen::Vector3d d13 = diagonal(1, 3);
+    result.convex             = d02.cross(d13).norm() > d02.norm() * d13.norm() * QUAD_TOLERANCE;
+  }
 
   return result;
 }
-- 
2.43.0


From 38c066d747130fee9050e87e3fdfca6f8bbb8d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 29/48] fix: decide on the planarity of quads relative to their
 size

---
 src/math/geometry.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/geometry.cpp b/src/math/geometry.cpp
index 9da3977..59f7bb1 100644
--- a/src/math/geometry.cpp
+++ b/src/math/geometry.cpp
@@ -141,7 +141,7 @@ Eigen::Vector2d projectVector(
 }
 
 namespace {
-/// Relative tolerance used to detect collapsed quads
+/// Relative tolerance used to detect non-planar and collapsed quads
 constexpr double QUAD_TOLERANCE = 1e-12;
 } // namespace
 
@@ -168,7 +168,9 @@ ConvexityResult isConvexQuad(std::array<Eigen::VectorXd, 4> coords)
     Eigen::Vector3d e_2          = coords[2] - coordOrigin;
     Eigen::Vector3d normalVector = e_1.cross(e_2);
 
-    PRECICE_CHECK(math::equals(normalVector.dot(coords[3] - coordOrigin), 0.0),
+    // The distance to the plane is relative to the size of the quad
+    const double size = e_1.norm() * e_2.norm() * (coords[3] - coordOrigin).norm();
+    PRECICE_CHECK(std::abs(normalVector.dot(coords[3] - coordOrigin)) <= size * QUAD_TOLERANCE,
                   "Non-planar quads are not supported. The vertex coordinates are: {}.", coords);
 
     // Transform Coordinates - coord[0] is the origin
-- 
2.43.0


From 225c7c07b383ef56ada51b70d3ef2938dbc19d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 30/48] fix: apply data actions exactly once to every sample

---
 src/acceleration/BaseQNAcceleration.cpp |  7 +++--
 src/action/Action.hpp                   |  9 ++++++
 src/action/PythonAction.cpp             |  6 ++++
 src/action/PythonAction.hpp             |  5 ++++
 src/action/ScaleByAreaAction.cpp        |  9 ++++--
 src/action/ScaleByAreaAction.hpp        |  5 ++++
 src/action/SummationAction.cpp          | 39 ++++++++++++++++++++-----
 src/action/SummationAction.hpp          |  7 +++++
 src/precice/impl/ParticipantImpl.cpp    | 13 +++++++++
 src/time/Sample.hpp                     |  3 ++
 10 files changed, 91 insertions(+), 12 deletions(-)

diff --git a/src/acceleration/BaseQNAcceleration.cpp b/src/acceleration/BaseQNAcceleration.cpp
index 949a659..617a82c 100644
--- a/src/acceleration/BaseQNAcceleration.cpp
+++ b/src/acceleration/BaseQNAcceleration.cpp
@@ -600,7 +600,8 @@ void BaseQNAcceleration::updateCouplingData(
     auto  &couplingData = *cplData.at(id);
     size_t dataSize     = couplingData.getSize();
 
-    Eigen::VectorXd timeGrid = _timeGrids->getTimeGridAfter(id, windowStart);
+    Eigen::VectorXd timeGrid  = _timeGrids->getTimeGridAfter(id, windowStart);
+    const bool      processed = couplingData.waveform().last().sample.processedByActions;
     couplingData.waveform().trimAfter(windowStart);
     for (int i = 0; i < timeGrid.size(); i++) {
 
@@ -610,7 +611,9 @@ void BaseQNAcceleration::updateCouplingData(
       }
       offset += dataSize;
 
-      couplingData.setSampleAtTime(timeGrid(i), time::Sample(couplingData.getDimensions(), temp));
+      time::Sample sample(couplingData.getDimensions(), temp);
+      sample.processedByActions = processed;
+      couplingData.setSampleAtTime(timeGrid(i), sample);
     }
   }
 }
diff --git a/src/action/Action.hpp b/src/action/Action.hpp
index 0e2dec2..b4994e0 100644
--- a/src/action/Action.hpp
+++ b/src/action/Action.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <vector>
 #include "mapping/Mapping.hpp"
 #include "mesh/SharedPointer.hpp"
 
@@ -44,9 +45,17 @@ public:
 
   /**
    * @brief Performs the action, to be overwritten by subclasses.
+   *
+   * Samples that earlier calls already processed have to stay as they are.
    */
   virtual void performAction() = 0;
 
+  /// Returns the data read or changed by the action.
+  virtual std::vector<mesh::PtrData> getUsedData() const
+  {
+    return {};
+  }
+
   /// Returns the timing of the action.
   Timing getTiming() const
   {
diff --git a/src/action/PythonAction.cpp b/src/action/PythonAction.cpp
index d98bff5..61090be 100644
--- a/src/action/PythonAction.cpp
+++ b/src/action/PythonAction.cpp
@@ -98,6 +98,9 @@ void PythonAction::performAction()
   if (!_sourceData) {
     PyObject *dataArgs = PyTuple_New(_numberArguments);
     for (auto &targetStample : _targetData->stamples()) {
+      if (targetStample.sample.processedByActions) {
+        continue;
+      }
       PyObject *pythonTime = PyFloat_FromDouble(targetStample.timestamp);
       PyTuple_SetItem(dataArgs, 0, pythonTime);
 
@@ -127,6 +130,9 @@ void PythonAction::performAction()
   for (size_t i = 0; i < targetStamples.size(); ++i) {
     auto &targetStample = targetStamples[i];
     auto &sourceStample = sourceStamples[i];
+    if (targetStample.sample.processedByActions && sourceStample.sample.processedByActions) {
+      continue;
+    }
     PRECICE_CHECK(math::equals(sourceStample.timestamp, targetStample.timestamp), "Trying to perform python action on samples with different timestamps: {} for source data and {} for target data. Time mesh of source data and target data must agree.", sourceStample.timestamp, targetStample.timestamp);
 
     PyObject *pythonTime = PyFloat_FromDouble(targetStample.timestamp);
diff --git a/src/action/PythonAction.hpp b/src/action/PythonAction.hpp
index 3036975..dded9d6 100644
--- a/src/action/PythonAction.hpp
+++ b/src/action/PythonAction.hpp
@@ -26,6 +26,11 @@ public:
 
   void performAction() final override;
 
+  std::vector<mesh::PtrData> getUsedData() const final override
+  {
+    return {_targetData, _sourceData};
+  }
+
 private:
   logging::Logger _log{"action::PythonAction"};
 
diff --git a/src/action/ScaleByAreaAction.cpp b/src/action/ScaleByAreaAction.cpp
index 8a9d963..1a06fce 100644
--- a/src/action/ScaleByAreaAction.cpp
+++ b/src/action/ScaleByAreaAction.cpp
@@ -29,9 +29,12 @@ void ScaleByAreaAction::performAction()
   const int meshDimensions = getMesh()->getDimensions();
 
   for (auto &targetStample : _targetData->stamples()) {
+    if (targetStample.sample.processedByActions) {
+      continue;
+    }
 
-    auto &targetValues              = _targetData->values();
-    targetValues                    = targetStample.sample.values;
+    time::Sample    scaled          = targetStample.sample;
+    auto           &targetValues    = scaled.values;
     const int       valueDimensions = _targetData->getDimensions();
     Eigen::VectorXd areas           = Eigen::VectorXd::Zero(getMesh()->nVertices());
     PRECICE_ASSERT(targetValues.size() / valueDimensions == areas.size());
@@ -67,7 +70,7 @@ void ScaleByAreaAction::performAction()
         }
       }
     }
-    _targetData->setSampleAtTime(targetStample.timestamp, _targetData->sample());
+    _targetData->setSampleAtTime(targetStample.timestamp, scaled);
   }
 }
 
diff --git a/src/action/ScaleByAreaAction.hpp b/src/action/ScaleByAreaAction.hpp
index e54701b..5734152 100644
--- a/src/action/ScaleByAreaAction.hpp
+++ b/src/action/ScaleByAreaAction.hpp
@@ -33,6 +33,11 @@ public:
    */
   void performAction() final override;
 
+  std::vector<mesh::PtrData> getUsedData() const final override
+  {
+    return {_targetData};
+  }
+
 private:
   logging::Logger _log{"action::ScaleByAreaAction"};
 
diff --git a/src/action/SummationAction.cpp b/src/action/SummationAction.cpp
index 4a74841..59db62e 100644
--- a/src/action/SummationAction.cpp
+++ b/src/action/SummationAction.cpp
@@ -33,17 +33,42 @@ void SummationAction::performAction()
 
   const auto &referenceData = _sourceDataVector.front(); // serves as reference
   const int   nStamples     = referenceData->stamples().size();
+  if (nStamples == 0) {
+    return;
+  }
+
+  // The target may still contain samples at times, which the sources of this iteration don't contain
+  std::vector<time::Stample> sums;
   for (int stampleId = 0; stampleId < nStamples; stampleId++) { // simultaneously loop over stamples in all sourceData of _sourceDataVector
-    auto &targetValues = _targetData->values();
-    targetValues.setZero();
-    const double currentTimestamp = referenceData->stamples()[stampleId].timestamp;
+    const auto  &referenceStample = referenceData->stamples()[stampleId];
+    const double currentTimestamp = referenceStample.timestamp;
+    // The coupling scheme may have moved the target past samples that are still required by other coupling schemes
+    if (!_targetData->stamples().empty() && math::smaller(currentTimestamp, _targetData->stamples().front().timestamp)) {
+      continue;
+    }
+    if (referenceStample.sample.processedByActions) {
+      const auto &targetStamples = _targetData->stamples();
+      const auto  kept           = std::find_if(targetStamples.begin(), targetStamples.end(), [currentTimestamp](const auto &s) { return math::equals(s.timestamp, currentTimestamp); });
+      if (kept != targetStamples.end()) {
+        sums.push_back(*kept);
+        continue;
+      }
+    }
+
+    time::Sample targetSample{_targetData->getDimensions(), getMesh()->nVertices()};
+    targetSample.setZero();
     for (const auto &sourceData : _sourceDataVector) {
-      auto sourceStample = sourceData->stamples()[stampleId];
+      PRECICE_CHECK(static_cast<int>(sourceData->stamples().size()) == nStamples, "Trying to perform summation action on source data \"{}\" and \"{}\" with different amounts of samples. Time meshes of all source data must agree. Actions do not fully support subcycling yet.", referenceData->getName(), sourceData->getName());
+      const auto &sourceStample = sourceData->stamples()[stampleId];
       PRECICE_CHECK(math::equals(sourceStample.timestamp, currentTimestamp), "Trying to perform summation action on samples with different timestamps: expected timestamp {}, but got source data with timestamp {}.  Time meshes of all source data must agree. Actions do not fully support subcycling yet.", currentTimestamp, sourceStample.timestamp);
-      auto sourceDataValues = sourceStample.sample.values;
-      targetValues += sourceDataValues;
+      targetSample.values += sourceStample.sample.values;
     }
-    _targetData->setSampleAtTime(currentTimestamp, _targetData->sample());
+    sums.push_back({currentTimestamp, std::move(targetSample)});
+  }
+
+  _targetData->waveform().clear();
+  for (const auto &sum : sums) {
+    _targetData->setSampleAtTime(sum.timestamp, sum.sample);
   }
 }
 
diff --git a/src/action/SummationAction.hpp b/src/action/SummationAction.hpp
index 19cd968..3d91de7 100644
--- a/src/action/SummationAction.hpp
+++ b/src/action/SummationAction.hpp
@@ -28,6 +28,13 @@ public:
   /// Adding data and applying them to target
   void performAction() final override;
 
+  std::vector<mesh::PtrData> getUsedData() const final override
+  {
+    auto used = _sourceDataVector;
+    used.push_back(_targetData);
+    return used;
+  }
+
 private:
   logging::Logger _log{"action::SummationAction"};
 
diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 5ce0f21..b4fce93 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -1761,6 +1761,19 @@ void ParticipantImpl::performDataActions(const std::set<action::Action::Timing>
       action->performAction();
     }
   }
+  // Samples that are kept for later time steps must not be changed again
+  for (action::PtrAction &action : _accessor->actions()) {
+    if (timings.find(action->getTiming()) == timings.end()) {
+      continue;
+    }
+    for (const auto &data : action->getUsedData()) {
+      if (data) {
+        for (auto &stample : data->waveform().stamples()) {
+          stample.sample.processedByActions = true;
+        }
+      }
+    }
+  }
 }
 
 void ParticipantImpl::handleExports(ExportTiming timing)
diff --git a/src/time/Sample.hpp b/src/time/Sample.hpp
index 4fd5a52..8dcd3b8 100644
--- a/src/time/Sample.hpp
+++ b/src/time/Sample.hpp
@@ -65,6 +65,9 @@ struct Sample {
 
   /// The gradients of the data. Use gradients.col(d*i+k) to get the gradient of vertex i, data component k, and data dimensionality d
   Eigen::MatrixXd gradients;
+
+  /// Have the data actions already processed this sample?
+  bool processedByActions = false;
 };
 
 } // namespace precice::time
-- 
2.43.0


From 73801c04860383404085b76cbd45826e8d3f9e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:12 +0000
Subject: [PATCH 31/48] fix: python actions without source data, target data or
 path

---
 src/action/PythonAction.cpp               | 32 +++++++++++++++++++++++
 src/action/config/ActionConfiguration.cpp |  6 +++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/action/PythonAction.cpp b/src/action/PythonAction.cpp
index 61090be..47af076 100644
--- a/src/action/PythonAction.cpp
+++ b/src/action/PythonAction.cpp
@@ -95,6 +95,37 @@ void PythonAction::performAction()
     initialize();
   }
 
+  if (_performAction == nullptr) {
+    return;
+  }
+
+  if (!_targetData) {
+    if (!_sourceData) {
+      return;
+    }
+    PyObject *dataArgs = PyTuple_New(_numberArguments);
+    for (auto &sourceStample : _sourceData->stamples()) {
+      if (sourceStample.sample.processedByActions) {
+        continue;
+      }
+      PyTuple_SetItem(dataArgs, 0, PyFloat_FromDouble(sourceStample.timestamp));
+
+      npy_intp sourceDim[]  = {sourceStample.sample.values.size()};
+      double  *sourceValues = const_cast<double *>(sourceStample.sample.values.data());
+      _sourceValues         = PyArray_SimpleNewFromData(1, sourceDim, NPY_DOUBLE, sourceValues);
+      PRECICE_CHECK(_sourceValues != nullptr, "Creating python source values failed. Please check that the source data name is used by the mesh in action:python.");
+      PyTuple_SetItem(dataArgs, 1, _sourceValues);
+
+      PyObject_CallObject(_performAction, dataArgs);
+      PRECICE_CHECK(!PyErr_Occurred(),
+                    "Error occurred during call of function performAction() in python module \"{}\". "
+                    "The error message is: {}",
+                    _moduleName, python_error_as_string());
+    }
+    Py_DECREF(dataArgs);
+    return;
+  }
+
   if (!_sourceData) {
     PyObject *dataArgs = PyTuple_New(_numberArguments);
     for (auto &targetStample : _targetData->stamples()) {
@@ -163,6 +194,7 @@ void PythonAction::performAction()
 void PythonAction::initialize()
 {
   PRECICE_ASSERT(not _isInitialized);
+  _isInitialized = true;
   // Initialize Python
   Py_Initialize();
   makeNumPyArraysAvailable();
diff --git a/src/action/config/ActionConfiguration.cpp b/src/action/config/ActionConfiguration.cpp
index 5d27f71..416d551 100644
--- a/src/action/config/ActionConfiguration.cpp
+++ b/src/action/config/ActionConfiguration.cpp
@@ -212,9 +212,11 @@ void ActionConfiguration::createAction()
 #ifndef PRECICE_NO_PYTHON
   else if (_configuredAction.type == NAME_PYTHON) {
     action = action::PtrAction(
-        new action::PythonAction(timing, _configuredAction.path, _configuredAction.module,
-                                 mesh, targetDataID, sourceDataIDs.back()));
+        new action::PythonAction(timing, _configuredAction.path.empty() ? "." : _configuredAction.path, _configuredAction.module,
+                                 mesh, targetDataID, sourceDataIDs.empty() ? -1 : sourceDataIDs.back()));
   }
+#else
+  PRECICE_CHECK(_configuredAction.type != NAME_PYTHON, "Python action \"{}\" on mesh \"{}\" requires preCICE to be built with Python support.", _configuredAction.module, _configuredAction.mesh);
 #endif
   PRECICE_ASSERT(action.get() != nullptr);
   _actions.push_back(std::move(action));
-- 
2.43.0


From eb5ce72dab1c9ad5803218b55044bdf51153fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 32/48] fix: gather-scatter communication can be closed while
 the primary ranks stay connected

---
 src/m2n/GatherScatterCommunication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m2n/GatherScatterCommunication.cpp b/src/m2n/GatherScatterCommunication.cpp
index d7e5985..2cc57fc 100644
--- a/src/m2n/GatherScatterCommunication.cpp
+++ b/src/m2n/GatherScatterCommunication.cpp
@@ -58,7 +58,7 @@ void GatherScatterCommunication::requestConnection(
 void GatherScatterCommunication::closeConnection()
 {
   PRECICE_TRACE();
-  PRECICE_ASSERT(utils::IntraComm::isSecondary() || not _com->isConnected());
+  // The primary communication is owned by the M2N and may still be connected, e.g. when remeshing
   _isConnected = false;
 }
 
-- 
2.43.0


From 0b17c897d792e21072d6e1c918d27d0fcc8512d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 33/48] fix: keep the rows of iteration and convergence logs
 when remeshing

---
 src/cplscheme/BaseCouplingScheme.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cplscheme/BaseCouplingScheme.cpp b/src/cplscheme/BaseCouplingScheme.cpp
index 713f75b..c8ef379 100644
--- a/src/cplscheme/BaseCouplingScheme.cpp
+++ b/src/cplscheme/BaseCouplingScheme.cpp
@@ -324,7 +324,6 @@ void BaseCouplingScheme::reinitialize()
         _acceleration->initialize(getAccelerationData());
       }
     }
-    initializeTXTWriters();
   }
 }
 
-- 
2.43.0


From b9325876c9cd15a35a3fcc14052029069784531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:26 +0000
Subject: [PATCH 34/48] fix: discard data written to a mesh before its reset

---
 src/precice/impl/ParticipantImpl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index b4fce93..eeeec63 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -788,6 +788,13 @@ void ParticipantImpl::resetMesh(
   PRECICE_DEBUG("Clear mesh positions for mesh \"{}\"", context.mesh->getName());
   _meshLock.unlock(meshName);
   context.mesh->clear();
+
+  // Buffered data refers to vertices, which no longer exist
+  for (auto &writeContext : _accessor->writeDataContexts()) {
+    if (writeContext.getMeshName() == meshName) {
+      writeContext.resizeBufferTo(0);
+    }
+  }
 }
 
 VertexID ParticipantImpl::setMeshVertex(
-- 
2.43.0


From 47c7e1ae311f6f3a18bb3d366b41295b37591870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:55 +0000
Subject: [PATCH 35/48] fix: keep profiling records until the events-file is
 open

With a small flush-every, the records of reading the configuration were flushed before
startBackend() opened the file. They got lost and debug builds aborted.
---
 src/profiling/EventUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/profiling/EventUtils.cpp b/src/profiling/EventUtils.cpp
index 64f6c61..a4cd7cb 100644
--- a/src/profiling/EventUtils.cpp
+++ b/src/profiling/EventUtils.cpp
@@ -286,7 +286,8 @@ struct EventWriter {
 
 void EventRegistry::flush()
 try {
-  if (_mode == Mode::Off || _writeQueue.empty()) {
+  // Keep the records until the backend is running and has opened the file
+  if (_mode == Mode::Off || _writeQueue.empty() || !_isBackendRunning) {
     return;
   }
   PRECICE_ASSERT(_output, "Filestream doesn't exist.");
-- 
2.43.0


From da715893c732d73319cba03722cb584bd8fecd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:55 +0000
Subject: [PATCH 36/48] fix: stop the solver.initialize event in finalize

A participant that is finalized without being initialized left the event running, so
the record of its end was missing in the events-file.
---
 src/precice/impl/ParticipantImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index eeeec63..93357a5 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -594,6 +594,7 @@ void ParticipantImpl::finalize()
     // Ensure reverse destruction order for correct nesting
     _userEvents.pop_back();
   }
+  _solverInitEvent.reset();
   _solverAdvanceEvent.reset();
 
   Event e("finalize", profiling::Fundamental);
-- 
2.43.0


From 5220439b696ee6c64a262a0657d556304a6b21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 37/48] fix: reject truncated and overflowing numbers in the
 configuration

---
 src/xml/ValueParser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/xml/ValueParser.cpp b/src/xml/ValueParser.cpp
index 510b32c..2bce437 100644
--- a/src/xml/ValueParser.cpp
+++ b/src/xml/ValueParser.cpp
@@ -18,9 +18,9 @@ double parseDouble(const std::string &rawValue)
     iss.imbue(std::locale(PARSING_LOCALE));
   } catch (...) {
   }
-  double value;
+  double value = 0.0; // the meaning of an empty value
   iss >> value;
-  if (!iss.eof()) {
+  if ((iss.fail() && !rawValue.empty()) || !iss.eof()) {
     throw std::runtime_error{"Could not fully parse value \"" + rawValue + "\" as a double."};
   }
   return value;
@@ -46,8 +46,9 @@ void readValueSpecific(const std::string &rawValue, int &value)
     iss.imbue(std::locale(PARSING_LOCALE));
   } catch (...) {
   }
+  value = 0; // the meaning of an empty value
   iss >> value;
-  if (!iss.eof()) {
+  if ((iss.fail() && !rawValue.empty()) || !iss.eof()) {
     throw std::runtime_error{"Could not fully parse value \"" + rawValue + "\" as an int."};
   }
 }
-- 
2.43.0


From 87a4cf18a2e0ebb7410e0282648a0ae215f6e6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 38/48] fix: reject meshes defined multiple times

---
 src/mesh/config/MeshConfiguration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mesh/config/MeshConfiguration.cpp b/src/mesh/config/MeshConfiguration.cpp
index ecc9883..2c0d24c 100644
--- a/src/mesh/config/MeshConfiguration.cpp
+++ b/src/mesh/config/MeshConfiguration.cpp
@@ -65,6 +65,8 @@ void MeshConfiguration::xmlTagCallback(
   if (tag.getName() == TAG) {
     std::string name       = tag.getStringAttributeValue(ATTR_NAME);
     int         dimensions = tag.getIntAttributeValue(ATTR_DIMENSIONS);
+    PRECICE_CHECK(!hasMeshName(name),
+                  "The mesh \"{}\" is defined multiple times. Please remove or rename one of the <mesh name=\"{}\" /> tags.", name, name);
     insertMeshToMeshDimensionsMap(name, dimensions);
     PRECICE_ASSERT(dimensions != 0);
     _meshes.push_back(std::make_shared<Mesh>(name, dimensions, _meshIdManager.getFreeID()));
-- 
2.43.0


From b263fb9121a434a4663de488f0fd7d52afe1df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 39/48] fix: reject participants defined multiple times

---
 src/precice/config/ParticipantConfiguration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/precice/config/ParticipantConfiguration.cpp b/src/precice/config/ParticipantConfiguration.cpp
index 0af202c..10ee78c 100644
--- a/src/precice/config/ParticipantConfiguration.cpp
+++ b/src/precice/config/ParticipantConfiguration.cpp
@@ -259,7 +259,9 @@ void ParticipantConfiguration::xmlTagCallback(
 {
   PRECICE_TRACE(tag.getName());
   if (tag.getName() == TAG) {
-    const std::string   &name = tag.getStringAttributeValue(ATTR_NAME);
+    const std::string &name = tag.getStringAttributeValue(ATTR_NAME);
+    PRECICE_CHECK(!hasParticipant(name),
+                  "The participant \"{}\" is defined multiple times. Please remove or rename one of the <participant name=\"{}\" /> tags.", name, name);
     impl::PtrParticipant p(new impl::ParticipantState(name, _meshConfig));
     _participants.push_back(p);
   } else if (tag.getName() == TAG_PROVIDE_MESH) {
-- 
2.43.0


From c8f6accc05a04a38f7d252fed9427258687ee194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 40/48] fix: reject just-in-time mappings without data on their
 mesh

---
 src/precice/config/ParticipantConfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/precice/config/ParticipantConfiguration.cpp b/src/precice/config/ParticipantConfiguration.cpp
index 10ee78c..0c0fd9f 100644
--- a/src/precice/config/ParticipantConfiguration.cpp
+++ b/src/precice/config/ParticipantConfiguration.cpp
@@ -583,8 +583,8 @@ void ParticipantConfiguration::finishParticipantConfiguration(
           if (mappingContext.mapping->requiresGradientData() == true) {
             mappingContext.requireGradientData(dataContext.getDataName());
           }
+          dataFound = true;
         }
-        dataFound = true;
       }
     }
     PRECICE_CHECK(dataFound,
@@ -629,8 +629,8 @@ void ParticipantConfiguration::finishParticipantConfiguration(
           if (mappingContext.mapping->requiresGradientData() == true) {
             mappingContext.requireGradientData(dataContext.getDataName());
           }
+          dataFound = true;
         }
-        dataFound = true;
       }
     }
     PRECICE_CHECK(dataFound,
-- 
2.43.0


From 31ecb4d201f4707e74acf4225dfe7b383914be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 41/48] fix: reject received meshes which the other participant
 cannot provide

---
 src/precice/config/Configuration.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/precice/config/Configuration.cpp b/src/precice/config/Configuration.cpp
index 0a09abb..cf347bb 100644
--- a/src/precice/config/Configuration.cpp
+++ b/src/precice/config/Configuration.cpp
@@ -120,6 +120,25 @@ void Configuration::xmlEndTagCallback(
                   "The connector in <m2n:... acceptor=\"{}\" connector=\"{}\" /> is an unknown. {}",
                   m2n.acceptor, m2n.connector, _participantConfiguration->hintFor(m2n.connector));
   }
+
+  // test if all received meshes are provided by connected participants
+  for (const auto &participant : _participantConfiguration->getParticipants()) {
+    for (const auto &receivedMesh : participant->receivedMeshContexts()) {
+      const std::string &from = receivedMesh.receiveMeshFrom;
+      const std::string &mesh = receivedMesh.mesh->getName();
+      PRECICE_CHECK(_participantConfiguration->hasParticipant(from),
+                    "Participant \"{}\" receives mesh \"{}\" from an unknown participant \"{}\". {}",
+                    participant->getName(), mesh, from, _participantConfiguration->hintFor(from));
+      PRECICE_CHECK(_participantConfiguration->getParticipant(from)->isMeshProvided(mesh),
+                    "Participant \"{}\" receives mesh \"{}\" from participant \"{}\", which doesn't provide it. "
+                    "Please add <provide-mesh name=\"{}\" /> to participant \"{}\" or change the \"from\" attribute of the receive-mesh tag.",
+                    participant->getName(), mesh, from, mesh, from);
+      PRECICE_CHECK(_m2nConfiguration->isM2NConfigured(from, participant->getName()),
+                    "Participant \"{}\" receives mesh \"{}\" from participant \"{}\", but there is no m2n communication between them. "
+                    "Please add an appropriate <m2n:... /> tag.",
+                    participant->getName(), mesh, from);
+    }
+  }
 }
 
 const PtrParticipantConfiguration &
-- 
2.43.0


From 23dcb11ea35c264b838948cd7d5c6877ab588b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 42/48] fix: reject implicit schemes with neither convergence
 measures nor max-iterations

---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 9b7c666..21f0819 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -982,7 +982,7 @@ void CouplingSchemeConfiguration::updateConfigForImplicitCoupling()
 void CouplingSchemeConfiguration::checkIterationLimits() const
 {
   if (_config.convergenceMeasureDefinitions.empty()) {
-    PRECICE_CHECK(_config.maxIterations != -1,
+    PRECICE_CHECK(_config.maxIterations != CouplingScheme::UNDEFINED_MAX_ITERATIONS && _config.maxIterations != CouplingScheme::INFINITE_MAX_ITERATIONS,
                   "Not defining convergence measures without providing a maximum iteration limit is forbidden. "
                   "Please define a convergence measure or set a maximum iteration limit using <max-iterations value=\"...\" />.");
 
-- 
2.43.0


From 8f29cca5fd9c0b8f706606be45b9deb77f8acbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 43/48] fix: reject exchanges from or to an empty participant
 name

---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index 21f0819..f1f126c 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -1036,12 +1036,12 @@ void CouplingSchemeConfiguration::addDataToBeExchanged(
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   dataName, meshName, from, to);
 
-    PRECICE_CHECK((utils::contained(from, _config.participants) || from == _config.controller),
+    PRECICE_CHECK(utils::contained(from, _config.participants) || (from == _config.controller && !from.empty()),
                   "Participant \"{}\" is not configured for coupling scheme. "
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   from, dataName, meshName, from, to);
 
-    PRECICE_CHECK((utils::contained(to, _config.participants) || to == _config.controller),
+    PRECICE_CHECK(utils::contained(to, _config.participants) || (to == _config.controller && !to.empty()),
                   "Participant \"{}\" is not configured for coupling scheme. "
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   to, dataName, meshName, from, to);
@@ -1084,11 +1084,11 @@ void CouplingSchemeConfiguration::addMultiDataToBeExchanged(
                   "Please check the <exchange data=\"{}\" mesh=\"{}\" from=\"{}\" to=\"{}\" /> tag in the <coupling-scheme:... /> of your precice-config.xml.",
                   dataName, meshName, from, to);
 
-    PRECICE_CHECK((utils::contained(from, _config.participants) || from == _config.controller),
+    PRECICE_CHECK(utils::contained(from, _config.participants) || (from == _config.controller && !from.empty()),
                   "Participant \"{}\" is not configured for coupling scheme",
                   from);
 
-    PRECICE_CHECK((utils::contained(to, _config.participants) || to == _config.controller),
+    PRECICE_CHECK(utils::contained(to, _config.participants) || (to == _config.controller && !to.empty()),
                   "Participant \"{}\" is not configured for coupling scheme", to);
 
     const bool initialize       = exchange.requiresInitialization;
-- 
2.43.0


From 9f7b856b677edc4b83162f42fe80b47b94c5be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 44/48] fix: reject coupling data which the mesh does not use

---
 src/cplscheme/config/CouplingSchemeConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cplscheme/config/CouplingSchemeConfiguration.cpp b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
index f1f126c..2ce9c2b 100644
--- a/src/cplscheme/config/CouplingSchemeConfiguration.cpp
+++ b/src/cplscheme/config/CouplingSchemeConfiguration.cpp
@@ -792,7 +792,7 @@ mesh::PtrData CouplingSchemeConfiguration::getData(
     const std::string &dataName,
     const std::string &meshName) const
 {
-  PRECICE_CHECK(_meshConfig->hasMeshName(meshName) && _meshConfig->getMesh(meshName)->data(dataName),
+  PRECICE_CHECK(_meshConfig->hasMeshName(meshName) && _meshConfig->getMesh(meshName)->hasDataName(dataName),
                 "Data \"{}\" used by mesh \"{}\" is not configured.", dataName, meshName);
   const mesh::PtrMesh &mesh = _meshConfig->getMesh(meshName);
   return mesh->data(dataName);
-- 
2.43.0


From 27a6713b56dd323fb95bd09dfc1a78c1c59e5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 45/48] fix: reject m2n communications of a participant with
 itself

---
 src/m2n/config/M2NConfiguration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/m2n/config/M2NConfiguration.cpp b/src/m2n/config/M2NConfiguration.cpp
index c33ae52..8afcd0b 100644
--- a/src/m2n/config/M2NConfiguration.cpp
+++ b/src/m2n/config/M2NConfiguration.cpp
@@ -133,6 +133,10 @@ void M2NConfiguration::xmlTagCallback(const xml::ConfigurationContext &context,
   if (tag.getNamespace() == TAG) {
     std::string acceptor  = tag.getStringAttributeValue("acceptor");
     std::string connector = tag.getStringAttributeValue("connector");
+    PRECICE_CHECK(acceptor != connector,
+                  "The acceptor and connector of an m2n communication need to be different participants, but both are \"{}\". "
+                  "Please check the <m2n:... acceptor=\"{}\" connector=\"{}\" /> tag.",
+                  acceptor, acceptor, connector);
     checkDuplicates(acceptor, connector);
     bool enforceGatherScatter = tag.getBooleanAttributeValue(ATTR_ENFORCE_GATHER_SCATTER);
     bool useTwoLevelInit      = tag.getBooleanAttributeValue(ATTR_USE_TWO_LEVEL_INIT);
-- 
2.43.0


From 1c10c88c67761569a2fe68882d005d1061a8b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 46/48] fix: reject invalid cluster sizes and overlaps of the
 partition of unity mapping

---
 src/mapping/config/MappingConfiguration.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mapping/config/MappingConfiguration.cpp b/src/mapping/config/MappingConfiguration.cpp
index 2110901..4f53066 100644
--- a/src/mapping/config/MappingConfiguration.cpp
+++ b/src/mapping/config/MappingConfiguration.cpp
@@ -471,6 +471,12 @@ void MappingConfiguration::xmlTagCallback(
     int    verticesPerCluster = tag.getIntAttributeValue(ATTR_VERTICES_PER_CLUSTER, 100);
     double relativeOverlap    = tag.getDoubleAttributeValue(ATTR_RELATIVE_OVERLAP, 0.3);
     bool   projectToInput     = tag.getBooleanAttributeValue(ATTR_PROJECT_TO_INPUT, true);
+    PRECICE_CHECK(verticesPerCluster > 0,
+                  "The attribute \"{}\" of the mapping from mesh \"{}\" to mesh \"{}\" has to be greater than zero, but {} was given.",
+                  ATTR_VERTICES_PER_CLUSTER, fromMesh, toMesh, verticesPerCluster);
+    PRECICE_CHECK(relativeOverlap >= 0 && relativeOverlap < 1,
+                  "The attribute \"{}\" of the mapping from mesh \"{}\" to mesh \"{}\" has to be in the range [0, 1), but {} was given.",
+                  ATTR_RELATIVE_OVERLAP, fromMesh, toMesh, relativeOverlap);
 
     // Convert raw string into enum types as the constructors take enums
     if (constraint == CONSTRAINT_CONSERVATIVE) {
-- 
2.43.0


From 216b3b4b6d53a137e87866389be0c044b8edb368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:08 +0000
Subject: [PATCH 47/48] fix: apply an intra-comm only to the participant that
 defines it

---
 src/precice/config/ParticipantConfiguration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/precice/config/ParticipantConfiguration.cpp b/src/precice/config/ParticipantConfiguration.cpp
index 0c0fd9f..4c30077 100644
--- a/src/precice/config/ParticipantConfiguration.cpp
+++ b/src/precice/config/ParticipantConfiguration.cpp
@@ -334,6 +334,9 @@ void ParticipantConfiguration::xmlTagCallback(
     config.isScalingOn = tag.getBooleanAttributeValue(ATTR_SCALE_WITH_CONN);
     _watchIntegralConfigs.push_back(config);
   } else if (tag.getNamespace() == TAG_INTRA_COMM) {
+    if (_participants.back()->getName() != context.name) {
+      return; // describes the ranks of another participant
+    }
     if (auto participant = _participants.back()->getName();
         context.size == 1 && participant == context.name) {
       PRECICE_INFO("Ignoring user-defined intra-comm for participant {} as it is running in serial.", participant);
-- 
2.43.0


From 55db1b937992ef21f2cb66c6990bb11f4c6af930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:48 +0000
Subject: [PATCH 48/48] fix: report missing samples when mapping and reading
 just in time

---
 src/precice/impl/ParticipantImpl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/precice/impl/ParticipantImpl.cpp b/src/precice/impl/ParticipantImpl.cpp
index 93357a5..6de1729 100644
--- a/src/precice/impl/ParticipantImpl.cpp
+++ b/src/precice/impl/ParticipantImpl.cpp
@@ -1327,6 +1327,11 @@ void ParticipantImpl::mapAndReadData(
                 "Example \"<mapping:nearest-neighbor direction=\"read\" from=\"{0}\" constraint=\"consistent\" />",
                 meshName);
 
+  PRECICE_CHECK(dataContext.hasSamples(), "Data \"{}\" cannot be read from mesh \"{}\" as it contains no samples. "
+                                          "This is typically a configuration issue of the data flow. "
+                                          "Check if the data is correctly exchanged to this participant \"{}\".",
+                dataName, meshName, _accessorName);
+
   // Inconsistent sizes will be handled below
   if (coordinates.empty() && values.empty()) {
     return;
-- 
2.43.0

