From 1c2fa6066570cc88be7851b154eb04af8a99ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:24 +0000
Subject: [PATCH 01/25] hooks: scheduling points in the atomic wrapper (guard
 IOX_VERIF_HOOKS)

---
 .../generic/include/iceoryx_platform/atomic.hpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp b/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp
index 6b7f65a..c35b786 100644
--- a/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp
+++ b/iceoryx_platform/generic/include/iceoryx_platform/atomic.hpp
@@ -21,12 +21,21 @@
 #include <iostream>
 #include <type_traits>
 
+#ifdef IOX_VERIF_HOOKS
+// supplied by the verification harness: same interface as 'std::atomic', but every operation is a scheduling point
+#include "iox_verif_atomic.hpp"
+#endif
+
 namespace iox
 {
 namespace concurrent
 {
 /// @brief An alias to the std::atomic_flag
+#ifdef IOX_VERIF_HOOKS
+using AtomicFlag = iox_verif::atomic_flag;
+#else
 using AtomicFlag = std::atomic_flag;
+#endif
 
 /// @brief A thin wrapper for a 'std::atomic' which ensures that all atomic operations are always lock-free in order to
 /// ensure safe usage across processes in shared memory. For detailed documentation please have a look at
@@ -524,7 +533,11 @@ class Atomic
     }
 
   private:
+#ifdef IOX_VERIF_HOOKS
+    iox_verif::atomic<T> m_value;
+#else
     std::atomic<T> m_value;
+#endif
 };
 } // namespace concurrent
 } // namespace iox
-- 
2.43.0


From cb932a41b10aef51bfe8a6f4f54b03c3b3490309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:23 +0000
Subject: [PATCH 02/25] fix: add a sample to the publisher history in the
 critical section of its delivery

A subscriber that was connected after the delivery but before the separate
history update got the sample neither by delivery nor by history.
---
 .../internal/popo/building_blocks/chunk_distributor.inl     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
index 246cfe9..36db39b 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/chunk_distributor.inl
@@ -170,6 +170,10 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
                 }
             }
         }
+
+        // the history must be updated before the lock is released; else a queue which is added right after the delivery
+        // would get the chunk neither by delivery nor by history
+        addToHistoryWithoutDelivery(chunk);
     }
 
     // busy waiting until every queue is served
@@ -221,8 +225,6 @@ inline uint64_t ChunkDistributor<ChunkDistributorDataType>::deliverToAllStoredQu
         }
     }
 
-    addToHistoryWithoutDelivery(chunk);
-
     return numberOfQueuesTheChunkWasDeliveredTo;
 }
 
-- 
2.43.0


From 77ae0c0aaa6c5bc84d25c08ee1c6cb50b32818eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:03 +0000
Subject: [PATCH 03/25] fix: a server that stops offering no longer brings down
 the daemon when a client is not connected

STOP_OFFER was dispatched to every compatible client. A client in NOT_CONNECTED (never connected or disconnected) or
WAIT_FOR_OFFER (e.g. rejected because the server had no room) treats that as a fatal CaPro protocol violation.
---
 iceoryx_posh/source/roudi/port_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index 1291567..da19763 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -636,6 +636,14 @@ void PortManager::sendToAllMatchingClientPorts(const capro::CaproMessage& messag
         popo::ClientPortRouDi clientPort(clientPortData);
         if (isCompatibleClientServer(serverSource, clientPort))
         {
+            // a client without connection to the server, e.g. not yet connected, disconnected or rejected by the server,
+            // is not affected by a STOP_OFFER
+            if (message.m_type == capro::CaproMessageType::STOP_OFFER
+                && clientPortData.m_connectionState.load(std::memory_order_relaxed) != ConnectionState::CONNECTED)
+            {
+                continue;
+            }
+
             // send OFFER/STOP_OFFER to client
             auto clientResponse = clientPort.dispatchCaProMessageAndGetPossibleResponse(message);
 
-- 
2.43.0


From 0507a374942abd14bd6a83cd3d79e6947a266182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:34 +0000
Subject: [PATCH 04/25] fix: a notification issued while others are collected
 no longer loses the hint that it is pending

---
 .../source/popo/building_blocks/condition_listener.cpp        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index fb82639..593e292 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -87,6 +87,9 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
     bool doReturnAfterNotificationCollection = false;
     while (!m_toBeDestroyed.load(std::memory_order_relaxed))
     {
+        // the hint has to be reset before the notifications are collected; otherwise the hint of a notification which
+        // was issued after its index was examined gets lost
+        getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
         for (Type_t i = 0U; i < MAX_NUMBER_OF_NOTIFIERS; i++)
         {
             if (getMembers()->m_activeNotifications[i].load(std::memory_order_relaxed))
@@ -109,7 +112,6 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
     getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
-    getMembers()->m_wasNotified.store(false, std::memory_order_relaxed);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
-- 
2.43.0


From 89dcca3e5027664a8d7efcdbf44c3a9e0e79e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:38 +0000
Subject: [PATCH 05/25] fix: a WaitSet no longer reports a new attachment
 because of a notification of the former attachment in its slot

---
 .../include/iceoryx_posh/internal/popo/wait_set.inl    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 686120b..4a43706 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -126,6 +126,16 @@ WaitSet<Capacity>::attachImpl(T& eventOrigin,
         return err(WaitSetError::WAIT_SET_FULL);
     }
 
+    // a notification of a former attachment with the same index must not be mistaken for one of the new attachment
+    m_conditionVariableDataPtr->m_activeNotifications[*index].store(false, std::memory_order_relaxed);
+    for (auto iter = m_activeNotifications.begin(); iter != m_activeNotifications.end(); ++iter)
+    {
+        if (*iter == *index)
+        {
+            m_activeNotifications.erase(iter);
+            break;
+        }
+    }
 
     if (hasTriggeredCallback)
     {
-- 
2.43.0


From f8ec73bebfe4133fb7e26a3b3eaf4b248effd954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:43 +0000
Subject: [PATCH 06/25] fix: WaitSet::wait no longer blocks while the state of
 an attached origin lasts

---
 iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
index 4a43706..9d91e46 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/popo/wait_set.inl
@@ -398,7 +398,9 @@ WaitSet<Capacity>::waitAndReturnTriggeredTriggers(const WaitFunction& wait) noex
 {
     if (m_conditionListener.wasNotified())
     {
-        this->acquireNotifications(wait);
+        // this must not block since the hint can be outdated: its notification may have been collected by the previous
+        // wait call while the state of an attached origin still lasts
+        this->acquireNotifications([this] { return this->m_conditionListener.timedWait(units::Duration::zero()); });
     }
 
     NotificationInfoVector triggers = createVectorWithTriggeredTriggers();
-- 
2.43.0


From 6a5d42b66252b16b61deaf4c724403671009f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 07/25] fix: PointerRepository: pointers no longer resolve to
 an unregistered segment

An unregistered segment kept its end address while its base became null, so that searchId attributed
every lower address to it.
---
 iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
index 2d3448a..749d78b 100644
--- a/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
+++ b/iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl
@@ -103,7 +103,7 @@ inline id_t PointerRepository<id_t, ptr_t, CAPACITY>::searchId(const ptr_t ptr)
     {
         // return first id where the ptr is in the corresponding interval
         // AXIVION Next Construct AutosarC++19_03-M5.14.1 : False positive. vector::operator[](index) has no side-effect when index is less than vector size which is guaranteed by PointerRepository design
-        if ((ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))
+        if ((m_info[id].basePtr != nullptr) && (ptr >= m_info[id].basePtr) && (ptr <= m_info[id].endPtr))
         {
             return id;
         }
-- 
2.43.0


From 0cad6e111eaace0bf86b3aa4cf41ed042dcb91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:43 +0000
Subject: [PATCH 08/25] fix: BumpAllocator: refuse sizes whose end exceeds the
 value range

The sum of position and size wrapped around, so that such a request succeeded and following allocations
overlapped earlier ones.
---
 iceoryx_hoofs/memory/source/bump_allocator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/iceoryx_hoofs/memory/source/bump_allocator.cpp b/iceoryx_hoofs/memory/source/bump_allocator.cpp
index 783d0bc..074da54 100644
--- a/iceoryx_hoofs/memory/source/bump_allocator.cpp
+++ b/iceoryx_hoofs/memory/source/bump_allocator.cpp
@@ -48,13 +48,13 @@ expected<void*, BumpAllocatorError> BumpAllocator::allocate(const uint64_t size,
 
     void* allocation{nullptr};
 
-    const uint64_t nextPosition{alignedPosition + size};
-    if (m_length >= nextPosition)
+    // compare without the sum of position and size since it can exceed the value range
+    if ((m_length >= alignedPosition) && ((m_length - alignedPosition) >= size))
     {
         // AXIVION Next Construct AutosarC++19_03-A5.2.4 : required for low level memory management
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast, performance-no-int-to-ptr)
         allocation = reinterpret_cast<void*>(m_startAddress + alignedPosition);
-        m_currentPosition = nextPosition;
+        m_currentPosition = alignedPosition + size;
     }
     else
     {
-- 
2.43.0


From 46fe3894dd2171f6836627ccf4ddbf7d16b82cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:19 +0000
Subject: [PATCH 09/25] fix: reject serialization entries whose length exceeds
 the data

removeFirstEntry added the received length to the position of the separator; a
length close to the maximum wrapped around and the entry was accepted.
---
 iceoryx_hoofs/utility/include/iox/detail/serialization.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
index 502e1b1..478ce3b 100644
--- a/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
+++ b/iceoryx_hoofs/utility/include/iox/detail/serialization.inl
@@ -121,7 +121,7 @@ inline bool Serialization::removeFirstEntry(std::string& firstEntry, std::string
 
     const auto length = result.value();
 
-    if (remainder.size() < pos + length + 1U)
+    if (remainder.size() - pos - 1U < length)
     {
         return false;
     }
-- 
2.43.0


From 3a2709569426e9c88c425d397c1c425d2b6d2836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:34 +0000
Subject: [PATCH 10/25] fix: announce a service whose last publisher or last
 server is gone

When a publisher and a server share a service description and the last of one
kind stopped offering, the entry stayed for the other kind and the registry was
not marked as changed; searches went on finding the service.
---
 .../source/roudi/service_registry.cpp         | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/iceoryx_posh/source/roudi/service_registry.cpp b/iceoryx_posh/source/roudi/service_registry.cpp
index 08d9d6e..34b2966 100644
--- a/iceoryx_posh/source/roudi/service_registry.cpp
+++ b/iceoryx_posh/source/roudi/service_registry.cpp
@@ -101,12 +101,15 @@ void ServiceRegistry::removePublisher(const capro::ServiceDescription& serviceDe
 
         if (entry && entry->publisherCount >= 1U)
         {
-            if (--entry->publisherCount == 0U && entry->serverCount == 0)
+            if (--entry->publisherCount == 0U)
             {
-                entry.reset();
-                // reuse the slot in the next insertion
-                m_freeIndex = index;
                 m_dataChanged = true;
+                if (entry->serverCount == 0U)
+                {
+                    entry.reset();
+                    // reuse the slot in the next insertion
+                    m_freeIndex = index;
+                }
             }
         }
     }
@@ -121,12 +124,15 @@ void ServiceRegistry::removeServer(const capro::ServiceDescription& serviceDescr
 
         if (entry && entry->serverCount >= 1U)
         {
-            if (--entry->serverCount == 0U && entry->publisherCount == 0)
+            if (--entry->serverCount == 0U)
             {
-                entry.reset();
-                // reuse the slot in the next insertion
-                m_freeIndex = index;
                 m_dataChanged = true;
+                if (entry->publisherCount == 0U)
+                {
+                    entry.reset();
+                    // reuse the slot in the next insertion
+                    m_freeIndex = index;
+                }
             }
         }
     }
-- 
2.43.0


From 7391a90fc1c4266c12f75ab78a4518d906152440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:26 +0000
Subject: [PATCH 11/25] fix: publish the service registry later when there was
 no memory for it

A change was considered announced even if no chunk could be allocated for it;
searching processes did not learn about it until the next change.
---
 .../include/iceoryx_posh/internal/roudi/port_manager.hpp | 2 ++
 iceoryx_posh/source/roudi/port_manager.cpp               | 9 ++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp
index 53011cc..ef527fc 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/port_manager.hpp
@@ -201,6 +201,8 @@ class PortManager
     PortIntrospectionType m_portIntrospection;
     vector<capro::ServiceDescription, NUMBER_OF_INTERNAL_PUBLISHERS> m_internalServices;
     optional<PublisherPortRouDiType::MemberType_t*> m_serviceRegistryPublisherPortData;
+    // stays true until the changes could be published
+    bool m_serviceRegistryNeedsToBePublished{false};
 
     // some ports for the service registry requires special handling
     // as we cannot send registry information if it was not created yet
diff --git a/iceoryx_posh/source/roudi/port_manager.cpp b/iceoryx_posh/source/roudi/port_manager.cpp
index da19763..02c6579 100644
--- a/iceoryx_posh/source/roudi/port_manager.cpp
+++ b/iceoryx_posh/source/roudi/port_manager.cpp
@@ -1097,7 +1097,12 @@ popo::InterfacePortData* PortManager::acquireInterfacePortData(capro::Interfaces
 
 void PortManager::publishServiceRegistry() noexcept
 {
-    if (!m_serviceRegistry.hasDataChangedSinceLastCall())
+    if (m_serviceRegistry.hasDataChangedSinceLastCall())
+    {
+        m_serviceRegistryNeedsToBePublished = true;
+    }
+
+    if (!m_serviceRegistryNeedsToBePublished)
     {
         return;
     }
@@ -1107,6 +1112,7 @@ void PortManager::publishServiceRegistry() noexcept
         // should not happen (except during RouDi shutdown)
         // the port always exists, otherwise we would terminate during startup
         IOX_LOG(Warn, "Could not publish service registry!");
+        m_serviceRegistryNeedsToBePublished = false;
         return;
     }
     PublisherPortUserType publisher(m_serviceRegistryPublisherPortData.value());
@@ -1120,6 +1126,7 @@ void PortManager::publishServiceRegistry() noexcept
             new (chunk->userPayload()) ServiceRegistry(m_serviceRegistry);
 
             publisher.sendChunk(chunk);
+            m_serviceRegistryNeedsToBePublished = false;
         })
         .or_else([](auto&) { IOX_LOG(Warn, "Could not allocate a chunk for the service registry!"); });
 }
-- 
2.43.0


From 1bb5e2157fef6d90e0467d0190dc2d344f657bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:58 +0000
Subject: [PATCH 12/25] fix: a publisher that stops offering no longer brings
 down the daemon when it had rejected a subscriber

With the one-to-many communication policy a subscriber which was rejected because the publisher had no room for it
is in WAIT_FOR_OFFER and treated the STOP_OFFER of that publisher as a fatal CaPro protocol violation.
---
 .../source/popo/ports/subscriber_port_single_producer.cpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp b/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp
index 5611e1d..9f2bee3 100644
--- a/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp
+++ b/iceoryx_posh/source/popo/ports/subscriber_port_single_producer.cpp
@@ -122,6 +122,12 @@ optional<capro::CaproMessage> SubscriberPortSingleProducer::dispatchCaProMessage
 
         return nullopt_t();
     }
+    else if ((capro::CaproMessageType::STOP_OFFER == caProMessage.m_type)
+             && (SubscribeState::WAIT_FOR_OFFER == currentSubscriptionState))
+    {
+        // No state change; the publisher rejected the subscription before, e.g. since it has no room for another subscriber
+        return nullopt_t();
+    }
     else if (((capro::CaproMessageType::OFFER == caProMessage.m_type)
               || (capro::CaproMessageType::STOP_OFFER == caProMessage.m_type))
              && (SubscribeState::NOT_SUBSCRIBED == currentSubscriptionState))
-- 
2.43.0


From e3fbdf643a8c487a8d899dce099ec2f77cd46a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 13/25] fix: two owners of one file lock when it is released
 and acquired at the same time

The file was removed after the lock on it was given up, so that another process could acquire
the lock of the file just before it was removed, and a third one the lock of a new file with that name.
---
 .../posix/filesystem/source/file_lock.cpp     | 93 ++++++++++++-------
 .../include/iceoryx_platform/stat.hpp         |  1 +
 2 files changed, 60 insertions(+), 34 deletions(-)

diff --git a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
index 86ed2d7..d4764fa 100644
--- a/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
+++ b/iceoryx_hoofs/posix/filesystem/source/file_lock.cpp
@@ -55,38 +55,62 @@ expected<FileLock, FileLockError> FileLockBuilder::create() noexcept
     fileLockPath.unsafe_append(m_name);
     fileLockPath.unsafe_append(FileLock::LOCK_FILE_SUFFIX);
 
-    auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
-                                                 convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
-                                                 m_permission.value())
-                        .failureReturnValue(-1)
-                        .evaluate();
-
-    if (openCall.has_error())
+    while (true)
     {
-        return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
-    }
+        auto openCall = IOX_POSIX_CALL(iox_ext_open)(fileLockPath.c_str(),
+                                                     convertToOflags(AccessMode::ReadOnly, OpenMode::OpenOrCreate),
+                                                     m_permission.value())
+                            .failureReturnValue(-1)
+                            .evaluate();
 
-    auto fileDescriptor = openCall.value().value;
-    auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
-                        .failureReturnValue(-1)
-                        .suppressErrorMessagesForErrnos(EWOULDBLOCK)
-                        .evaluate();
+        if (openCall.has_error())
+        {
+            return err(FileLock::convertErrnoToFileLockError(openCall.error().errnum, fileLockPath));
+        }
 
-    if (lockCall.has_error())
-    {
-        IOX_POSIX_CALL(iox_ext_close)
-        (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
-            IOX_LOG(Error,
-                    "Unable to close file lock \"" << fileLockPath
-                                                   << "\" in error related cleanup during initialization.");
-        });
+        auto fileDescriptor = openCall.value().value;
+        auto lockCall = IOX_POSIX_CALL(iox_flock)(fileDescriptor, static_cast<int>(FileLock::LockOperation::LOCK))
+                            .failureReturnValue(-1)
+                            .suppressErrorMessagesForErrnos(EWOULDBLOCK)
+                            .evaluate();
 
-        //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
-        return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
-    }
+        if (lockCall.has_error())
+        {
+            IOX_POSIX_CALL(iox_ext_close)
+            (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
+                IOX_LOG(Error,
+                        "Unable to close file lock \"" << fileLockPath
+                                                       << "\" in error related cleanup during initialization.");
+            });
+
+            //  possible errors in iox_ext_close() are masked and we inform the user about the actual error
+            return err(FileLock::convertErrnoToFileLockError(lockCall.error().errnum, fileLockPath));
+        }
+
+        // the former owner removes the file while it holds the lock; when this happened after the file was opened here, the
+        // acquired lock belongs to a file nobody else can see anymore and the current one has to be locked instead
+        iox_stat fileStatus{};
+        fileStatus.st_nlink = 1;
+        auto statCall = IOX_POSIX_CALL(iox_fstat)(fileDescriptor, &fileStatus).failureReturnValue(-1).evaluate();
+
+        if (statCall.has_error() || fileStatus.st_nlink == 0)
+        {
+            IOX_POSIX_CALL(iox_ext_close)
+            (fileDescriptor).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+                IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, fileLockPath));
+                IOX_LOG(Error, "Unable to close the removed file lock \"" << fileLockPath << '"');
+            });
 
-    return ok(FileLock(fileDescriptor, fileLockPath));
+            if (statCall.has_error())
+            {
+                return err(FileLock::convertErrnoToFileLockError(statCall.error().errnum, fileLockPath));
+            }
+            continue;
+        }
+
+        return ok(FileLock(fileDescriptor, fileLockPath));
+    }
 }
 
 FileLock::FileLock(const int32_t fileDescriptor, const FilePath_t& path) noexcept
@@ -133,6 +157,14 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
     if (m_fd != INVALID_FD)
     {
         bool cleanupFailed = false;
+        // remove the file as long as the lock is held, otherwise the file another process just locked could be removed
+        IOX_POSIX_CALL(remove)
+        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
+            cleanupFailed = true;
+            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
+            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
+        });
+
         IOX_POSIX_CALL(iox_flock)
         (m_fd, static_cast<int>(LockOperation::UNLOCK))
             .failureReturnValue(-1)
@@ -151,13 +183,6 @@ expected<void, FileLockError> FileLock::closeFileDescriptor() noexcept
             IOX_LOG(Error, "Unable to close the file handle to the file lock \"" << m_fileLockPath << '"');
         });
 
-        IOX_POSIX_CALL(remove)
-        (m_fileLockPath.c_str()).failureReturnValue(-1).evaluate().or_else([&](auto& result) {
-            cleanupFailed = true;
-            IOX_DISCARD_RESULT(FileLock::convertErrnoToFileLockError(result.errnum, m_fileLockPath));
-            IOX_LOG(Error, "Unable to remove the file lock \"" << m_fileLockPath << '"');
-        });
-
         if (cleanupFailed)
         {
             return err(FileLockError::INTERNAL_LOGIC_ERROR);
diff --git a/iceoryx_platform/freertos/include/iceoryx_platform/stat.hpp b/iceoryx_platform/freertos/include/iceoryx_platform/stat.hpp
index 193e9d3..f19075c 100644
--- a/iceoryx_platform/freertos/include/iceoryx_platform/stat.hpp
+++ b/iceoryx_platform/freertos/include/iceoryx_platform/stat.hpp
@@ -25,6 +25,7 @@ struct iox_stat
     int st_uid;
     int st_gid;
     int st_mode;
+    int st_nlink;
     uint32_t st_size;
 };
 using iox_mode_t = int;
-- 
2.43.0


From dc058111a3d90468b1514d28b01d80168e98115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 14/25] fix: NamedPipe::tryReceive reports success when it
 received a message

---
 iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
index b9ec600..9fa4168 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/named_pipe.inl
@@ -91,6 +91,7 @@ expected<void, PosixIpcChannelError> NamedPipe::tryReceive(iox::string<N>& messa
         {
             m_data->sendSemaphore().post().expect("'post' on a semaphore should always be successful");
             message = *msg;
+            return ok();
         }
         return err(PosixIpcChannelError::INTERNAL_LOGIC_ERROR);
     }
-- 
2.43.0


From 21bf063646e5e247000bfb17b017b12fe0193885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 15/25] fix: MessageQueue::open detects when the message queue
 cannot be opened

---
 iceoryx_hoofs/posix/ipc/source/message_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
index 26d6ce7..4eec52f 100644
--- a/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/message_queue.cpp
@@ -215,7 +215,7 @@ expected<mqd_t, PosixIpcChannelError> MessageQueue::open(const PosixIpcChannelNa
         mode_t umaskSaved = umask(0);
         auto mqCall =
             IOX_POSIX_CALL(iox_mq_open4)(sanitizedName.c_str(), openFlags, MessageQueue::FILE_MODE, &attributes)
-                .failureReturnValue(MessageQueue::INVALID_DESCRIPTOR)
+                .failureReturnValue(static_cast<mqd_t>(MessageQueue::ERROR_CODE))
                 .suppressErrorMessagesForErrnos(ENOENT)
                 .evaluate();
 
-- 
2.43.0


From 4d02bc10b877317fc41e6217ad87f1b5a749d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 16/25] fix: UnixDomainSocket: a timeout of zero no longer
 blocks forever

---
 .../include/iox/detail/unix_domain_socket.inl   | 14 +++++++++++---
 .../ipc/include/iox/unix_domain_socket.hpp      | 10 ++++++++++
 .../posix/ipc/source/unix_domain_socket.cpp     | 17 +++++++++++++++--
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 96df645..4fe887d 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -116,14 +116,15 @@ expected<void, PosixIpcChannelError> UnixDomainSocket::send(const iox::string<N>
 {
     // we also support timedSend. The setsockopt call sets the timeout for all further sendto calls, so we must set
     // it to 0 to turn the timeout off
-    return timedSend(buf, units::Duration::fromSeconds(0ULL));
+    return timedSendImpl<char, Termination::NULL_TERMINATOR>(
+        buf.c_str(), buf.size(), units::Duration::fromSeconds(0ULL));
 }
 
 template <uint64_t N>
 expected<void, PosixIpcChannelError> UnixDomainSocket::timedSend(const iox::string<N>& buf,
                                                                  const units::Duration& timeout) const noexcept
 {
-    return timedSendImpl<char, Termination::NULL_TERMINATOR>(buf.c_str(), buf.size(), timeout);
+    return timedSendImpl<char, Termination::NULL_TERMINATOR>(buf.c_str(), buf.size(), toSocketTimeout(timeout));
 }
 
 template <uint64_t N>
@@ -131,12 +132,19 @@ expected<void, PosixIpcChannelError> UnixDomainSocket::receive(iox::string<N>& b
 {
     // we also support timedReceive. The setsockopt call sets the timeout for all further recvfrom calls, so we must set
     // it to 0 to turn the timeout off
-    return timedReceive(buf, units::Duration::fromSeconds(0ULL));
+    return receiveString(buf, units::Duration::fromSeconds(0ULL));
 }
 
 template <uint64_t N>
 expected<void, PosixIpcChannelError> UnixDomainSocket::timedReceive(iox::string<N>& buf,
                                                                     const units::Duration& timeout) const noexcept
+{
+    return receiveString(buf, toSocketTimeout(timeout));
+}
+
+template <uint64_t N>
+expected<void, PosixIpcChannelError> UnixDomainSocket::receiveString(iox::string<N>& buf,
+                                                                     const units::Duration& timeout) const noexcept
 {
     static_assert(N <= MAX_MESSAGE_SIZE, "Size exceeds transmission limit!");
 
diff --git a/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp b/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
index e49d807..e4a978a 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
+++ b/iceoryx_hoofs/posix/ipc/include/iox/unix_domain_socket.hpp
@@ -151,6 +151,16 @@ class UnixDomainSocket
         NULL_TERMINATOR
     };
 
+    /// @brief a timeout which can be set on a socket and does not turn the timeout off
+    static units::Duration toSocketTimeout(const units::Duration& timeout) noexcept;
+
+    /// @note a timeout of 0 blocks until a message arrives
+    expected<std::string, PosixIpcChannelError> receiveString(const units::Duration& timeout) const noexcept;
+    /// @note a timeout of 0 blocks until a message arrives
+    template <uint64_t N>
+    expected<void, PosixIpcChannelError> receiveString(iox::string<N>& buf,
+                                                       const units::Duration& timeout) const noexcept;
+
     template <typename Type, Termination Terminator>
     expected<void, PosixIpcChannelError>
     timedSendImpl(not_null<const Type*> msg, uint64_t msgSize, const units::Duration& timeout) const noexcept;
diff --git a/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp b/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp
index 1c03ca6..b8afabf 100644
--- a/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp
+++ b/iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp
@@ -285,18 +285,31 @@ expected<void, PosixIpcChannelError> UnixDomainSocket::send(const std::string& m
 expected<void, PosixIpcChannelError> UnixDomainSocket::timedSend(const std::string& msg,
                                                                  const units::Duration& timeout) const noexcept
 {
-    return timedSendImpl<char, Termination::NULL_TERMINATOR>(msg.c_str(), msg.size(), timeout);
+    return timedSendImpl<char, Termination::NULL_TERMINATOR>(msg.c_str(), msg.size(), toSocketTimeout(timeout));
 }
 
 expected<std::string, PosixIpcChannelError> UnixDomainSocket::receive() const noexcept
 {
     // we also support timedReceive. The setsockopt call sets the timeout for all further recvfrom calls, so we must set
     // it to 0 to turn the timeout off
-    return timedReceive(units::Duration::fromSeconds(0ULL));
+    return receiveString(units::Duration::fromSeconds(0ULL));
 }
 
 expected<std::string, PosixIpcChannelError>
 UnixDomainSocket::timedReceive(const units::Duration& timeout) const noexcept
+{
+    return receiveString(toSocketTimeout(timeout));
+}
+
+units::Duration UnixDomainSocket::toSocketTimeout(const units::Duration& timeout) noexcept
+{
+    // a socket timeout has a resolution of one microsecond and 0 turns it off, i.e. the call would block forever
+    const auto shortestSocketTimeout = units::Duration::fromMicroseconds(1ULL);
+    return (timeout < shortestSocketTimeout) ? shortestSocketTimeout : timeout;
+}
+
+expected<std::string, PosixIpcChannelError>
+UnixDomainSocket::receiveString(const units::Duration& timeout) const noexcept
 {
     auto result = expected<uint64_t, PosixIpcChannelError>(in_place, uint64_t(0));
     Message_t msg;
-- 
2.43.0


From addb73eaf204bc758625c3459313c23c09d62e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:58 +0000
Subject: [PATCH 17/25] fix: UnixDomainSocket: an empty datagram is an error
 instead of a message with an underflowed length

---
 .../posix/ipc/include/iox/detail/unix_domain_socket.inl        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
index 4fe887d..6c3a45d 100644
--- a/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
+++ b/iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl
@@ -100,8 +100,9 @@ expected<uint64_t, PosixIpcChannelError> UnixDomainSocket::timedReceiveImpl(
     const auto receivedMsgLength = static_cast<uint64_t>(recvCall->value);
     if constexpr (Terminator == Termination::NULL_TERMINATOR)
     {
+        // an empty datagram does not contain the null terminator
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        if (msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
+        if (receivedMsgLength < NULL_TERMINATOR_SIZE || msg[receivedMsgLength - NULL_TERMINATOR_SIZE] != 0)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
             msg[0] = 0;
-- 
2.43.0


From e87873bbf69139e310088738ead46b8ed83a37f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 18/25] fix: RouDi refuses a registration whose PID, user or
 timestamp is not a number

Such a message registered a process with PID 0 and user 0: RouDi later sent
SIGTERM and SIGKILL to its own process group and granted root's segments.
---
 .../iceoryx_posh/internal/roudi/roudi.hpp     | 10 +++--
 iceoryx_posh/source/roudi/roudi.cpp           | 43 ++++++++++++-------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
index 41dc6f5..898d51c 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/roudi.hpp
@@ -28,6 +28,7 @@
 #include "iceoryx_posh/roudi/roudi_app.hpp"
 #include "iceoryx_posh/roudi/roudi_config.hpp"
 #include "iox/atomic.hpp"
+#include "iox/optional.hpp"
 #include "iox/posix_user.hpp"
 #include "iox/relative_pointer.hpp"
 #include "iox/scope_guard.hpp"
@@ -75,10 +76,11 @@ class RouDi
     virtual void cyclicUpdateHook() noexcept;
     void IpcMessageErrorHandler() noexcept;
 
-    version::VersionInfo parseRegisterMessage(const runtime::IpcMessage& message,
-                                              uint32_t& pid,
-                                              iox_uid_t& userId,
-                                              int64_t& transmissionTimestamp) noexcept;
+    /// @return the version of the process or nullopt if the message contains an invalid number
+    optional<version::VersionInfo> parseRegisterMessage(const runtime::IpcMessage& message,
+                                                        uint32_t& pid,
+                                                        iox_uid_t& userId,
+                                                        int64_t& transmissionTimestamp) noexcept;
 
     /// @brief Handles the registration request from process
     /// @param [in] name of the process which wants to register at roudi; this is equal to the IPC channel name
diff --git a/iceoryx_posh/source/roudi/roudi.cpp b/iceoryx_posh/source/roudi/roudi.cpp
index 651adae..610dd4b 100644
--- a/iceoryx_posh/source/roudi/roudi.cpp
+++ b/iceoryx_posh/source/roudi/roudi.cpp
@@ -268,22 +268,26 @@ void RouDi::processRuntimeMessages(runtime::IpcInterfaceCreator&& roudiIpcInterf
     }
 }
 
-version::VersionInfo RouDi::parseRegisterMessage(const runtime::IpcMessage& message,
-                                                 uint32_t& pid,
-                                                 iox_uid_t& userId,
-                                                 int64_t& transmissionTimestamp) noexcept
+optional<version::VersionInfo> RouDi::parseRegisterMessage(const runtime::IpcMessage& message,
+                                                           uint32_t& pid,
+                                                           iox_uid_t& userId,
+                                                           int64_t& transmissionTimestamp) noexcept
 {
-    convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str()).and_then([&pid](const auto value) {
-        pid = value;
-    });
-    convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str()).and_then([&userId](const auto value) {
-        userId = value;
-    });
-    convert::from_string<int64_t>(message.getElementAtIndex(4).c_str())
-        .and_then([&transmissionTimestamp](const auto value) { transmissionTimestamp = value; });
+    const auto maybePid = convert::from_string<uint32_t>(message.getElementAtIndex(2).c_str());
+    const auto maybeUserId = convert::from_string<uint32_t>(message.getElementAtIndex(3).c_str());
+    const auto maybeTimestamp = convert::from_string<int64_t>(message.getElementAtIndex(4).c_str());
+
+    // a process with an unknown PID or user must neither get signals nor access rights of somebody else
+    if (!maybePid.has_value() || !maybeUserId.has_value() || !maybeTimestamp.has_value())
+    {
+        return nullopt;
+    }
+
+    pid = maybePid.value();
+    userId = maybeUserId.value();
+    transmissionTimestamp = maybeTimestamp.value();
 
-    Serialization serializationVersionInfo(message.getElementAtIndex(5));
-    return serializationVersionInfo;
+    return version::VersionInfo(Serialization(message.getElementAtIndex(5)));
 }
 
 void RouDi::processMessage(const runtime::IpcMessage& message,
@@ -321,14 +325,21 @@ void RouDi::processMessage(const runtime::IpcMessage& message,
             uint32_t pid{0U};
             iox_uid_t userId{0};
             int64_t transmissionTimestamp{0};
-            version::VersionInfo versionInfo = parseRegisterMessage(message, pid, userId, transmissionTimestamp);
+            auto versionInfo = parseRegisterMessage(message, pid, userId, transmissionTimestamp);
+
+            if (!versionInfo.has_value())
+            {
+                IOX_LOG(Error,
+                        "Invalid parameters for \"IpcMessageType::REG\" from \"" << runtimeName << "\" received!");
+                break;
+            }
 
             registerProcess(runtimeName,
                             pid,
                             PosixUser{userId},
                             transmissionTimestamp,
                             getUniqueSessionIdForProcess(),
-                            versionInfo);
+                            versionInfo.value());
         }
         break;
     }
-- 
2.43.0


From 745d77fd593e1ccde1096a482d7b4fdb3a273854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:49 +0000
Subject: [PATCH 19/25] fix: port introspection reports a new subscriber
 without waiting for another change

A subscriber which does not subscribe on creation was missing in the list of
ports while its state was already published, so that the two topics did not match.
---
 .../internal/roudi/introspection/port_introspection.inl          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
index 0165705..4e3c503 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl
@@ -348,6 +348,7 @@ inline bool PortIntrospection<PublisherPort, SubscriberPort>::PortData::addSubsc
         }
     }
 
+    setNew(true);
     return true;
 }
 
-- 
2.43.0


From 63558408c8968caafd43d73e314ac17a0ec6da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:49 +0000
Subject: [PATCH 20/25] fix: process introspection has room for RouDi and the
 maximum number of processes

RouDi occupies one of the entries, the last registered process was not reported.
---
 .../internal/roudi/introspection/process_introspection.hpp     | 3 ++-
 .../include/iceoryx_posh/roudi/introspection_types.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
index 02966b9..393d54d 100644
--- a/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.hpp
@@ -85,7 +85,8 @@ class ProcessIntrospection
     void send() noexcept;
 
   private:
-    using ProcessList_t = iox::list<ProcessIntrospectionData, MAX_PROCESS_NUMBER>;
+    // one more than the maximum number of registered processes since RouDi itself is also in the list
+    using ProcessList_t = iox::list<ProcessIntrospectionData, MAX_PROCESS_NUMBER + 1U>;
     ProcessList_t m_processList;
     bool m_processListNewData{true}; // true because we want to have a valid field, even with an empty list
 
diff --git a/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp b/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
index 4d3c2ec..6e41d19 100644
--- a/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
+++ b/iceoryx_posh/include/iceoryx_posh/roudi/introspection_types.hpp
@@ -141,7 +141,8 @@ struct ProcessIntrospectionData
 /// @brief the topic for the process introspection that a user can subscribe to
 struct ProcessIntrospectionFieldTopic
 {
-    vector<ProcessIntrospectionData, MAX_PROCESS_NUMBER> m_processList;
+    /// @note one more than the maximum number of registered processes since RouDi itself is also in the list
+    vector<ProcessIntrospectionData, MAX_PROCESS_NUMBER + 1U> m_processList;
 };
 
 } // namespace roudi
-- 
2.43.0


From 99bf143db070a77ab295dfcbc4e6db47c057965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:35 +0000
Subject: [PATCH 21/25] fix: a process can open the maximum number of payload
 segments

The management segment was counted as one of them, a user with access to all of
MAX_SHM_SEGMENTS segments could not start.
---
 iceoryx_posh/source/runtime/shared_memory_user.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/runtime/shared_memory_user.cpp b/iceoryx_posh/source/runtime/shared_memory_user.cpp
index 30cc7e5..2c62919 100644
--- a/iceoryx_posh/source/runtime/shared_memory_user.cpp
+++ b/iceoryx_posh/source/runtime/shared_memory_user.cpp
@@ -59,7 +59,7 @@ SharedMemoryUser::create(const DomainId domainId,
     auto segmentMapping = segmentManager->getSegmentMappings(PosixUser::getUserOfCurrentProcess());
     for (const auto& segment : segmentMapping)
     {
-        if (static_cast<uint32_t>(shmSegments.size()) >= MAX_SHM_SEGMENTS)
+        if (static_cast<uint32_t>(shmSegments.size()) >= NUMBER_OF_ALL_SHM_SEGMENTS)
         {
             return err(SharedMemoryUserError::TOO_MANY_SHM_SEGMENTS);
         }
-- 
2.43.0


From 6d04d3ef49fc11bc98829c2a23cec9c2f92951a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:45 +0000
Subject: [PATCH 22/25] fix: what other owners did with a chunk happens before
 its memory is reused

---
 iceoryx_posh/source/mepoo/shared_chunk.cpp             | 2 +-
 iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iceoryx_posh/source/mepoo/shared_chunk.cpp b/iceoryx_posh/source/mepoo/shared_chunk.cpp
index 035f49d..d6fe362 100644
--- a/iceoryx_posh/source/mepoo/shared_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shared_chunk.cpp
@@ -54,7 +54,7 @@ void SharedChunk::incrementReferenceCounter() noexcept
 void SharedChunk::decrementReferenceCounter() noexcept
 {
     if ((m_chunkManagement != nullptr)
-        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_relaxed) == 1U))
+        && (m_chunkManagement->m_referenceCounter.fetch_sub(1U, std::memory_order_acq_rel) == 1U))
     {
         MemoryManager::freeChunk(*m_chunkManagement);
         m_chunkManagement = nullptr;
diff --git a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
index 32116ac..ff5da97 100644
--- a/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
+++ b/iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp
@@ -113,7 +113,7 @@ bool ShmSafeUnmanagedChunk::isNotLogicalNullptrAndHasNoOtherOwners() const noexc
 
     auto chunkMgmt =
         RelativePointer<mepoo::ChunkManagement>(m_chunkManagement.offset(), segment_id_t{m_chunkManagement.id()});
-    return chunkMgmt->m_referenceCounter.load(std::memory_order_relaxed) == 1U;
+    return chunkMgmt->m_referenceCounter.load(std::memory_order_acquire) == 1U;
 }
 
 } // namespace mepoo
-- 
2.43.0


From 6ffcfd4ddbb25a5d9c2ed64d972fc005124ba1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:45 +0000
Subject: [PATCH 23/25] fix: the lock-free queue reuses a buffer cell only
 after its last reader is done with it

---
 .../iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
index 5c76800..78228a8 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/mpmc_lockfree_queue/mpmc_index_queue.inl
@@ -90,7 +90,7 @@ inline void MpmcIndexQueue<Capacity, ValueType>::push(const ValueType index) noe
 
             // if publish fails, another thread has published before us
             bool published = m_cells[writePosition.getIndex()].compare_exchange_weak(
-                oldValue, newValue, std::memory_order_relaxed, std::memory_order_relaxed);
+                oldValue, newValue, std::memory_order_release, std::memory_order_relaxed);
 
             if (published)
             {
@@ -159,7 +159,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::pop(ValueType& index) noexcept
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
     do
     {
-        value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        value = loadvalueAt(readPosition, std::memory_order_acquire);
 
         // we only dequeue if value and readPosition are in the same cycle
         auto cellIsValidToRead = readPosition.getCycle() == value.getCycle();
@@ -209,7 +209,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfFull(ValueType& index) noe
 
     const auto writePosition = m_writePosition.load(std::memory_order_relaxed);
     auto readPosition = m_readPosition.load(std::memory_order_relaxed);
-    const auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+    const auto value = loadvalueAt(readPosition, std::memory_order_acquire);
 
     auto isFull = writePosition.getIndex() == readPosition.getIndex() && readPosition.isOneCycleBehind(writePosition);
 
@@ -264,7 +264,7 @@ inline bool MpmcIndexQueue<Capacity, ValueType>::popIfSizeIsAtLeast(const uint64
     // delta is positive, therefore the conversion is fine (it surely fits into uint64_t)
     if (static_cast<uint64_t>(delta) >= minSize)
     {
-        auto value = loadvalueAt(readPosition, std::memory_order_relaxed);
+        auto value = loadvalueAt(readPosition, std::memory_order_acquire);
         Index newReadPosition(readPosition + 1U);
         auto ownershipGained = m_readPosition.compare_exchange_strong(
             readPosition, newReadPosition, std::memory_order_relaxed, std::memory_order_relaxed);
-- 
2.43.0


From b9d391c6954cb0da36f7bd3ccd38a41635efc6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:45 +0000
Subject: [PATCH 24/25] fix: the SoFi writes a cell only after the pop which
 made it free has read it

---
 .../concurrent/buffer/include/iox/detail/spsc_sofi.inl     | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl
index 4712130..39eda9f 100644
--- a/iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl
+++ b/iceoryx_hoofs/concurrent/buffer/include/iox/detail/spsc_sofi.inl
@@ -186,10 +186,9 @@ inline bool SpscSofi<ValueType, CapacityValue>::push(const ValueType& valueIn, V
     // 5. The consumer thread missed the chance to pop the element in the blink of an eye
     m_writePosition.store(nextWritePosition, std::memory_order_release);
 
-    // Memory order relaxed is enough since:
-    // - no synchronization needed when loading
-    // - the operation cannot move below without observable changes
-    uint64_t currentReadPosition = m_readPosition.load(std::memory_order_relaxed);
+    // Memory order acquire is needed to synchronize with the CAS loop of the pop method; the cell which pop has read
+    // becomes free with the new m_readPosition and is written by the next push
+    uint64_t currentReadPosition = m_readPosition.load(std::memory_order_acquire);
 
     // Check if queue is full: since we have an extra element (INTERNAL_CAPACITY_ADD_ON), we need to
     // check if there is a free position for the *next* write position
-- 
2.43.0


From 8d614b2535ce437fb7c15ebc7c3aa49ce01e04c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:45 +0000
Subject: [PATCH 25/25] fix: what happened before a notification is visible to
 the one which is notified

---
 .../source/popo/building_blocks/condition_listener.cpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
index 593e292..a75f912 100644
--- a/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
+++ b/iceoryx_posh/source/popo/building_blocks/condition_listener.cpp
@@ -111,7 +111,8 @@ ConditionListener::NotificationVector_t ConditionListener::waitImpl(const functi
 
 void ConditionListener::resetUnchecked(const uint64_t index) noexcept
 {
-    getMembers()->m_activeNotifications[index].store(false, std::memory_order_relaxed);
+    // synchronizes with the store in 'ConditionNotifier::notify'
+    getMembers()->m_activeNotifications[index].exchange(false, std::memory_order_acquire);
 }
 
 const ConditionVariableData* ConditionListener::getMembers() volatile const noexcept
-- 
2.43.0

