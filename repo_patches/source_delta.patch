From 151502052681ebd766881f9291b768c76be08882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 01/76] fix: terminate the assert in TimerMgr::onTimerModified
 so Timer.cpp compiles

---
 src/common/maf/messaging/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fbef7a8..fe36ba5 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -222,8 +222,8 @@ void TimerMgr::stop(TimerDataPtr record) {
 void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
-         "Timer must be triggered in thread of a mesasging::Processor")
-      thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+         "Timer must be triggered in thread of a mesasging::Processor");
+  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0


From a550f544bd4a0a5f6079a21f4245aca9120304f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 02/76] fix: ThreadSafeQueue close/push must be atomic with
 respect to waiters

close() raised the flag and notified without the lock, so a consumer between
checking its predicate and blocking missed the wakeup and never returned; push()
tested the flag before taking the lock, so an item could be left in a closed
and cleared queue.
---
 include/maf/threading/ThreadSafeQueue.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..5a92d7d 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -22,15 +22,15 @@ class ThreadSafeQueue {
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
   void push(const value_type &data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->push(data);
       queueNotEmpty_.notify_one();
     }
   }
   void push(value_type &&data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
     }
@@ -43,8 +43,8 @@ class ThreadSafeQueue {
               std::void_t<decltype(std::declval<_Sequence>().begin())>, void>,
           bool> = true>
   void push(const _Sequence &seq) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       for (auto &item : seq) {
         queue_->push(item);
       }
@@ -109,6 +109,8 @@ class ThreadSafeQueue {
   void reOpen() { closed_.store(false, std::memory_order_release); }
 
   void close() {
+    // a waiter between its predicate check and its wait must not miss this
+    std::lock_guard lock(queue_);
     bool alreadyClosed = false;
     closed_.compare_exchange_strong(alreadyClosed, true);
     if (!alreadyClosed) {
@@ -119,16 +121,19 @@ class ThreadSafeQueue {
   bool isClosed() const { return closed_.load(std::memory_order_acquire); }
 
   void clear(ApplyAction onClearCallback = nullptr) {
-    using namespace std;
-    lock_guard lock(queue_);
+    // the items are dropped without the lock: their destructors are user code
+    // that might access this queue again
+    QueueClass items;
+    {
+      std::lock_guard lock(queue_);
+      std::swap(*queue_, items);
+    }
     if (onClearCallback) {
-      while (!queue_->empty()) {
-        auto v = std::move(queue_->front());
+      while (!items.empty()) {
+        auto v = std::move(items.front());
         onClearCallback(v);
-        queue_->pop();
+        items.pop();
       }
-    } else {
-      *queue_ = {};
     }
   }
 
-- 
2.43.0


From 55d9d9e9d1341df70e7dff9e8874a090cfc0b9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 03/76] fix: Processor::create must not hand out the same id
 twice

The lookup and the registration were two steps and the result of the
registration was ignored, so two threads creating the same id both got an
instance of which only one was registered.
---
 src/common/maf/messaging/Processor.cpp | 4 +---
 src/common/maf/messaging/Router.cpp    | 1 +
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..b858073 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -176,10 +176,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
   if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
+    if (!Router::instance().addProcessor(comp)) {
       comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
     }
   }
   return comp;
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..2576afa 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -76,6 +76,7 @@ bool Router::addProcessor(ProcessorInstance comp) {
       informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
       notifyAllAboutNewProcessor(*joinedProcessors, comp);
       joinedProcessors->insert(move(comp));
+      return true;
     }
   }
   return false;
-- 
2.43.0


From 2f57b722e7452a57de5de881a1bdb85599cf32ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 04/76] fix: stopping a processor must not unregister another
 one with the same id

---
 src/common/maf/messaging/Router.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 2576afa..e02ce42 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -83,7 +83,17 @@ bool Router::addProcessor(ProcessorInstance comp) {
 }
 
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
+  auto removed = [this, &comp] {
+    auto joinedProcessors = messageprocessors_.atomic();
+    auto it = joinedProcessors->find(comp);
+    // another processor might have joined with the same id
+    if (it != joinedProcessors->end() && *it == comp) {
+      joinedProcessors->erase(it);
+      return true;
+    }
+    return false;
+  }();
+  if (removed) {
     postToAll(ProcessorStatusUpdateMsg{
         comp, ProcessorStatusUpdateMsg::Status::UnReachable});
     return true;
-- 
2.43.0


From 7d3423e62c2b5efec81671f8bf4084daddf9a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 05/76] fix: broadcasting must not hold the router lock while
 handlers run

sendToAll() executes the handlers of the calling processor synchronously, which
dead locked when such a handler used the routing itself.
---
 src/common/maf/messaging/Router.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index e02ce42..7c11e97 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -32,8 +32,8 @@ Processor::CompleteSignal Router::send(const ProcessorID &messageprocessorID,
 
 bool Router::postToAll(const Message &msg) {
   bool delivered = false;
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  const Processors processors = *messageprocessors_.atomic();
+  for (const auto &comp : processors) {
     delivered |= askThenPost(comp, std::move(msg));
   }
   return delivered;
@@ -41,8 +41,10 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  // handlers of the current processor are executed right here, and they might
+  // use the routing again
+  const Processors processors = *messageprocessors_.atomic();
+  for (const auto &comp : processors) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
-- 
2.43.0


From 54a3a1b9a517132638e937a67f7042dd3ed97820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 06/76] fix: MsgConnection move assignment leaked the
 connection it replaced

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index b858073..4453cc2 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -520,8 +520,11 @@ MsgConnection::MsgConnection(MsgConnection &&con) noexcept {
 }
 
 MsgConnection &MsgConnection::operator=(MsgConnection &&con) noexcept {
-  _ = con._;
-  con._ = nullptr;
+  if (this != &con) {
+    delete asSSC(_);
+    _ = con._;
+    con._ = nullptr;
+  }
   return *this;
 }
 
-- 
2.43.0


From e0fb1a562fa3ce301275a373ab9932f6f09a30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 07/76] fix: disconnecting slots while the signal is being
 notified

The slot that disconnects itself was destroyed while it was executing, clearing
the signal invalidated the running iteration, slots disconnected that way were
still counted as connected, and a throwing slot left the signal unusable.
---
 include/maf/utils/SignalSlots.h | 41 +++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..fb27c83 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -5,7 +5,7 @@
 
 #include "maf/threading/MutexRef.h"
 
-//#include <algorithm>
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <future>
@@ -33,6 +33,13 @@ using Slot_ = function<void(ConstRef_<Args_>...)>;
 template <class... Args_>
 using SlotPtr_ = shared_ptr<Slot_<Args_...>>;
 
+// keeps the notifying flag correct also when a slot throws
+struct NotifyingGuard_ {
+  NotifyingGuard_(bool& flag) : flag_{flag} { flag_ = true; }
+  ~NotifyingGuard_() { flag_ = false; }
+  bool& flag_;
+};
+
 template <class... Args_>
 class SingleSlotKeeper {
  public:
@@ -60,9 +67,10 @@ class SingleSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected!");
-      notifying_ = true;
-      mySlot()->operator()(args...);
-      notifying_ = false;
+      NotifyingGuard_ guard{notifying_};
+      // the slot might be disconnected by itself, keep it until it returns
+      auto slot = mySlot();
+      slot->operator()(args...);
     }
   }
 
@@ -107,17 +115,18 @@ class MultiSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
-      notifying_ = true;
+      NotifyingGuard_ guard{notifying_};
 
       for (auto it = begin(slots_); it != end(slots_);) {
         if (!*it) {  // this this slot is disconnected;
           it = slots_.erase(it);
         } else {
-          std::invoke(*(*it), args...);
+          // the slot might be disconnected by itself, keep it until it returns
+          auto slot = *it;
+          std::invoke(*slot, args...);
           ++it;
         }
       }
-      notifying_ = false;
     }
   }
 
@@ -136,15 +145,27 @@ class MultiSlotKeeper {
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return size() != 0; }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    if (!notifying_) {
+      slots_.clear();
+    } else {
+      for (auto& slot : slots_) {
+        slot.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  size_t size() const {
+    // slots that are disconnected while notifying are not erased yet
+    return count_if(begin(slots_), end(slots_),
+                    [](const SlotPtrType& slot) { return slot != nullptr; });
+  }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
-- 
2.43.0


From c809802479eb3c0504da832128ee1af2a4a025a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 08/76] fix: connection aware slots must not be destroyed from
 inside themselves

A slot owned its connection and the connection owned the slot once it was
disconnected; breaking that cycle from inside the slot used freed memory, and
with an executor it was never broken and raced with the emitting thread.
Destroying a moved signal dereferenced a null pointer.
---
 include/maf/utils/SignalSlots.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index fb27c83..297dc7c 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -336,7 +336,11 @@ class BasicSignal_ {
   BasicSignal_& operator=(const BasicSignal_&) = delete;
   BasicSignal_(BasicSignal_&&) = default;
   BasicSignal_& operator=(BasicSignal_&&) = default;
-  ~BasicSignal_() { disconnect(); }
+  ~BasicSignal_() {
+    if (slotKeeper_) {  // not moved
+      disconnect();
+    }
+  }
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
@@ -354,17 +358,13 @@ class BasicSignal_ {
 
   ConnectionType connect(ConnectionAwareSlotType cas) {
     auto ps = makeSlotPtr({});
-    auto conPtr = ConnectionPtrType{new ConnectionType{sharedKeeper(), ps}};
-    *ps = [cas{move(cas)},
-           conPtr = move(conPtr)](ConstRef_<Args_>... args) mutable {
-      cas(conPtr, args...);
-      // Fix issue memory leadk due to cyclick reference
-      // Slot holds a connection shared_ptr
-      // this conPtr holds a slot shared_ptr after conPtr->disconnect() is
-      // called
-      if (conPtr->holdingConnector()) {
-        conPtr->clear();
-      }
+    // The slot must not own its connection: after disconnect() the connection
+    // owns the slot. Every invocation has a connection of its own because slots
+    // with executor might use it in another thread.
+    *ps = [cas{move(cas)}, hubRef = weak_ptr<ConnectableIF>{sharedKeeper()},
+           slotRef = weak_ptr<SlotType>{ps}](ConstRef_<Args_>... args) mutable {
+      cas(ConnectionPtrType{new ConnectionType{hubRef, slotRef.lock()}},
+          args...);
     };
     return saveSlot(move(ps));
   }
-- 
2.43.0


From ffa7eb6ab260d058e33032783c3e963826d828c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 09/76] fix: disconnecting a message must not drop disconnected
 handlers of others

MsgConnection::reconnect() of a handler for another message type silently did
nothing after Processor::disconnect<Msg>(), because the signal it belongs to
was erased.
---
 src/common/maf/messaging/Processor.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 4453cc2..5a64d76 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -117,16 +117,6 @@ struct ProcessorDataPrv {
     return it != msgHandlersMap->end() && it->second->connected();
   }
 
-  void cleanupUnconnectedMsgHandlers() {
-    for (auto it = msgHandlersMap->begin(); it != msgHandlersMap->end();) {
-      if (!it->second->connected()) {
-        it = msgHandlersMap->erase(it);
-      } else {
-        ++it;
-      }
-    }
-  }
-
   void closeAndClearExecutionsQueue() {
     pendingExecutions.close();
     pendingExecutions.clear();
@@ -376,7 +366,6 @@ MsgConnection Processor::connect(const MessageID &msgid,
 void Processor::disconnect(const MessageID &msgid) {
   std::lock_guard lock(d_->msgHandlersMap);
   d_->msgHandlersMap->erase(msgid);
-  d_->cleanupUnconnectedMsgHandlers();
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
-- 
2.43.0


From 4b30cecadfdb51af1de698828c2e19c1f9ab6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 10/76] fix: Processor::connected must not report disconnected
 handlers

---
 src/common/maf/messaging/Processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 5a64d76..a512b29 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -281,7 +281,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
 }
 
 bool Processor::connected(const MessageID &mid) const {
-  return d_->msgHandlersMap.atomic()->count(mid) > 0;
+  return d_->msgConnected(mid);
 }
 
 bool Processor::executeAsync(Execution exec) {
-- 
2.43.0


From 1d2f2b885a8c1b9b68b227854eb61c4075ba731e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/76] fix: executions wrapped by will*ExecuteOnThis can be
 called repeatedly

The wrapped callback was moved away by the first call; the second call queued
an empty function, whose invocation terminated the processor thread.
---
 src/common/maf/messaging/Processor.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index a512b29..b4280dc 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -329,25 +329,25 @@ Processor::Executor Processor::getBlockingExecutor() {
 }
 
 Execution Processor::willExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)]() {
     if (auto processor = wprocessor.lock()) {
-      processor->execute(move(exec));
+      processor->execute(exec);
     }
   };
 }
 
 Execution Processor::willAsyncExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)]() {
     if (auto processor = wprocessor.lock()) {
-      processor->executeAsync(move(exec));
+      processor->executeAsync(exec);
     }
   };
 }
 
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
-  return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
+  return [wprocessor = this->weak_from_this(), exec = move(exec)]() {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(move(exec)).wait();
+      processor->waitableExecute(exec).wait();
     }
   };
 }
-- 
2.43.0


From ad43ea69419004889ff37e161b6044d16d5b85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 12/76] fix: asking a signal for being connected must not wait
 for its slots

Processor::post asks the signal of the message type, which was locked while
handlers run: posting blocked until the handler returned, and deadlocked when
the handler waited for the poster.
---
 include/maf/utils/SignalSlots.h | 36 +++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 297dc7c..7305722 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -7,6 +7,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <future>
 #include <list>
@@ -49,6 +50,7 @@ class SingleSlotKeeper {
   bool add(SlotPtrType s) {
     if (!mySlot()) {
       mySlot() = move(s);
+      connected_ = valid();
       return true;
     }
     return false;
@@ -75,8 +77,11 @@ class SingleSlotKeeper {
   }
 
   bool valid() const { return mySlot() && mySlot()->operator bool(); }
+  // can be used without locking
+  bool connected() const { return connected_; }
   void clear() {
     if (mySlot()) {
+      connected_ = false;
       mySlot().reset();
     }
   }
@@ -91,6 +96,7 @@ class SingleSlotKeeper {
 
   SlotsType slots_;
   mutable bool notifying_ = false;
+  atomic_bool connected_ = false;
 };
 
 template <class... Args_>
@@ -101,13 +107,13 @@ class MultiSlotKeeper {
 
   bool add(SlotPtrType s) {
     slots_.push_back(move(s));
+    ++count_;
     return true;
   }
 
   bool addUnique(SlotPtrType s) {
     if (!has(s)) {
-      slots_.push_back(move(s));
-      return true;
+      return add(move(s));
     }
     return false;
   }
@@ -131,23 +137,24 @@ class MultiSlotKeeper {
   }
 
   bool remove(const SlotPtrType& s) {
-    if (!notifying_) {
-      if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
+    if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
+      --count_;
+      if (!notifying_) {
         slots_.erase(i);
-        return true;
-      }
-    } else {
-      if (auto i = find(begin(slots_), end(slots_), s); i != end(slots_)) {
+      } else {
         i->reset();
-        return true;
       }
+      return true;
     }
     return false;
   }
 
   bool valid() const { return size() != 0; }
+  // can be used without locking
+  bool connected() const { return valid(); }
 
   void clear() {
+    count_ = 0;
     if (!notifying_) {
       slots_.clear();
     } else {
@@ -161,17 +168,15 @@ class MultiSlotKeeper {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const {
-    // slots that are disconnected while notifying are not erased yet
-    return count_if(begin(slots_), end(slots_),
-                    [](const SlotPtrType& slot) { return slot != nullptr; });
-  }
+  // slots that are disconnected while notifying are not erased yet
+  size_t size() const { return count_; }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
  protected:
   mutable SlotsType slots_;
   mutable bool notifying_ = false;
+  atomic_size_t count_ = 0;
 };
 
 struct DummyMutex_ {
@@ -487,7 +492,8 @@ class BasicSignal_ {
 
   void disconnect() { keeper()->clear(); }
 
-  bool connected() const { return keeper()->valid(); }
+  // does not wait for slots that are running in other threads
+  bool connected() const { return keeper().lockee().connected(); }
 
   size_t connectionCount() const { return keeper()->size(); }
 
-- 
2.43.0


From 873512d9d1ec8c3b2e23a2c3c3792bc820481552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 13/76] fix: connecting a message handler must not lock the
 handlers map meanwhile

connect() waited for running handlers of the type while it kept the map of
handlers locked, which deadlocked with any handler that posts or connects.
---
 src/common/maf/messaging/Processor.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index b4280dc..357297c 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -355,10 +355,15 @@ Execution Processor::willBlockingExecuteOnThis(Execution exec) {
 MsgConnection Processor::connect(const MessageID &msgid,
                                  MessageProcessingCallback processMsgCallback) {
   using namespace std;
-  lock_guard lock(d_->msgHandlersMap);
-  auto &handlers = (*d_->msgHandlersMap)[msgid];
-  if (!handlers) {
-    handlers = std::make_shared<Handlers>();
+  HandlersPtr handlers;
+  {
+    // connecting waits for running handlers, which might use the map
+    lock_guard lock(d_->msgHandlersMap);
+    auto &mapped = (*d_->msgHandlersMap)[msgid];
+    if (!mapped) {
+      mapped = std::make_shared<Handlers>();
+    }
+    handlers = mapped;
   }
   return new SSConnection(handlers->connect(move(processMsgCallback)));
 }
-- 
2.43.0


From 283a9076b2a49adb1beeb019787229671719fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 14/76] fix: disconnecting a message also ends the processing
 in progress

Handlers that were waiting for their turn were still called after
Processor::disconnect<Msg>() had been called by an earlier one.
---
 src/common/maf/messaging/Processor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 357297c..1222983 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -369,8 +369,19 @@ MsgConnection Processor::connect(const MessageID &msgid,
 }
 
 void Processor::disconnect(const MessageID &msgid) {
-  std::lock_guard lock(d_->msgHandlersMap);
-  d_->msgHandlersMap->erase(msgid);
+  HandlersPtr handlers;
+  {
+    std::lock_guard lock(d_->msgHandlersMap);
+    auto it = d_->msgHandlersMap->find(msgid);
+    if (it != d_->msgHandlersMap->end()) {
+      handlers = std::move(it->second);
+      d_->msgHandlersMap->erase(it);
+    }
+  }
+  if (handlers) {
+    // the message might be being processed right now
+    handlers->disconnect();
+  }
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
-- 
2.43.0


From 32a687c1f2d262e4491b5edf5672713c918aa30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 15/76] fix: sendToAll must wait for all receivers when one of
 them fails

A receiver that was stopped before handling the message completed the signal
although other receivers were still waiting for their turn.
---
 src/common/maf/messaging/Router.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 7c11e97..04f8154 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -53,6 +53,10 @@ Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   if (!msgMessageHandledSignals.empty()) {
     return Processor::CompleteSignal{async(
         launch::deferred, [sigs{move(msgMessageHandledSignals)}]() mutable {
+          // all handlers must be done, also when one of them fails
+          for (auto &sig : sigs) {
+            sig.wait();
+          }
           for (auto &sig : sigs) {
             sig.get();
           }
-- 
2.43.0


From fe5378c174a056ec39f5437b3dbe11ccb5db0ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 16/76] fix: expired timers must be re-evaluated after waiting
 on the processor

---
 src/common/maf/messaging/Timer.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fe36ba5..7f4b685 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -165,6 +165,9 @@ void Timer::timeoutAfter(milliseconds milliseconds,
 }
 
 void TimerMgr::cleanup() {
+  for (auto& record : records_) {
+    record->running = false;
+  }
   records_.clear();
   state_ = State::NoTimer;
 }
@@ -184,17 +187,21 @@ void TimerMgr::checkAllTimers() {
     }
 
     if (comp->stopped()) {
+      cleanup();
       break;
     }
 
-    if (!timer->expired()) {
+    // the timers might be modified while waiting, so that this one is not
+    // necessarily the shortest anymore
+    if (timer != getShortestTimer() || !timer->expired()) {
       continue;
     }
 
     state_ = State::HaveTimer;
-    // shortest timer might be stopped while waiting
     if (timer->running) {
       onShortestTimerExpired(timer);
+    } else {
+      removeShortestTimer();
     }
   }
 }
-- 
2.43.0


From 43ecdea492b7b2c4de32c6348a2bce74d590aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 17/76] fix: a timer callback must survive starting its own
 timer again

---
 src/common/maf/messaging/Timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 7f4b685..cd5f84e 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -46,7 +46,11 @@ struct TimerData {
     deadline = Clock::now() + duration;
   }
   bool expired() const { return deadline <= Clock::now(); }
-  void onExpired() { callback(); }
+  void onExpired() {
+    // the callback might start this timer again with another callback
+    auto cb = callback;
+    cb();
+  }
   void reset(TimeOutCallback&& cb, ExecutionTimeout d, bool cc = false) {
     callback = move(cb);
     deadline = Clock::now() + d;
-- 
2.43.0


From 3ece3c915237a3c1348e97073fd673ac83c017bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 18/76] fix: restarting a timer which is not running must
 schedule it

---
 src/common/maf/messaging/Timer.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index cd5f84e..0ffe310 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -41,10 +41,7 @@ struct TimerData {
         duration(interval),
         cyclic(cc) {}
   void updateNextDeadline() { deadline += duration; }
-  void restart() {
-    running = true;
-    deadline = Clock::now() + duration;
-  }
+  void restart() { deadline = Clock::now() + duration; }
   bool expired() const { return deadline <= Clock::now(); }
   void onExpired() {
     // the callback might start this timer again with another callback
@@ -248,14 +245,11 @@ void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
 }
 
 void TimerMgr::restart(const TimerDataPtr& r) {
-  r->restart();
-  if (r == records_.front()) {
-    pop_heap(begin(), end(), timerGreater);
-    push_heap(begin(), end(), timerGreater);
-  } else {
-    refresh();
+  // nothing to restart if it was never started
+  if (r->callback) {
+    r->restart();
+    start(r);
   }
-  onTimerModified();
 }
 
 void TimerMgr::add(TimerDataPtr newRecord) {
-- 
2.43.0


From 089629ea6815df633a36a8e73fd5dfb4c6bf7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 19/76] fix: SyncTimer restart had no effect, superseded starts
 kept running

---
 src/common/maf/messaging/SyncTimer.cpp | 52 ++++++++++++++++++--------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..e24eb34 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -14,12 +14,17 @@ namespace messaging {
 struct SyncTimerDataPrv {
   std::condition_variable_any timeoutCondition;
   std::recursive_mutex mutex;
-  bool running = false;
+  std::atomic_bool running = false;
   bool cyclic = false;
+  std::chrono::steady_clock::time_point deadline = {};
+  std::chrono::milliseconds interval = {};
+  size_t startCount = 0;
 };
 
 SyncTimer::SyncTimer(bool cyclic)
-    : d_{new SyncTimerDataPrv{{}, {}, false, cyclic}} {}
+    : d_{new SyncTimerDataPrv} {
+  d_->cyclic = cyclic;
+}
 
 SyncTimer::~SyncTimer() {
   stop();
@@ -42,36 +47,53 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
     }
 
     std::unique_lock lock(d_->mutex);
+    const auto startID = ++d_->startCount;
+    auto stopped = [this, startID] {
+      return !d_->running || d_->startCount != startID;
+    };
     d_->running = true;
+    d_->interval = milliseconds;
+    d_->deadline = std::chrono::steady_clock::now() + milliseconds;
 
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds,
-                                         [this] { return !d_->running; })) {
-        if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
-        } else {
-          callback();
-        }
+      // the deadline might be postponed by restart() while waiting
+      while (!stopped() && std::chrono::steady_clock::now() < d_->deadline) {
+        auto deadline = d_->deadline;
+        d_->timeoutCondition.wait_until(lock, deadline);
       }
 
-      if (!d_->running)  // restarted
-      {
+      if (stopped()) {
         break;
       }
 
-    } while (d_->cyclic);
+      if (executor) {
+        executor->execute(d_->cyclic ? callback : std::move(callback));
+      } else {
+        callback();
+      }
 
-    d_->running = false;
+      d_->deadline = std::chrono::steady_clock::now() + milliseconds;
+    } while (d_->cyclic && !stopped());
+
+    if (d_->startCount == startID) {
+      d_->running = false;
+    }
   }
 }
 
-void SyncTimer::restart() { d_->timeoutCondition.notify_one(); }
+void SyncTimer::restart() {
+  std::lock_guard lock(d_->mutex);
+  if (d_->running) {
+    d_->deadline = std::chrono::steady_clock::now() + d_->interval;
+    d_->timeoutCondition.notify_all();
+  }
+}
 
 void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
   if (d_->running) {
     d_->running = false;
-    d_->timeoutCondition.notify_one();
+    d_->timeoutCondition.notify_all();
   }
 }
 
-- 
2.43.0


From fa9cc0c46a3da32a4f1181e2cc1436ef7a96a7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 20/76] fix: single connection shared mutex signals must accept
 only one slot

---
 include/maf/utils/Observable.h  | 3 ++-
 include/maf/utils/SignalSlots.h | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..e7b2200 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -628,7 +628,8 @@ using SharedMutexObservable =
     BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCObservable =
-    BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicObservableTS<threading::MutexReference<std::recursive_mutex>,
+                        Args...>;
 
 template <class... _Args, class _Callback>
 auto waitableConnect(BasicObservable_<_Args...>& o, _Callback callback) {
diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 7305722..4ac0bb8 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -626,7 +626,7 @@ using SharedMutexSignal =
     BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCSignal =
-    BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <template <class, class...> class Signal_, class SlotKeeper_,
           typename... Args_>
-- 
2.43.0


From 2865e8164649ef1039b0ff0bb2274061e82fcc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 21/76] fix: cancelling a waitable connection must release its
 waiter

---
 include/maf/utils/SignalSlots.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 4ac0bb8..ef40cbc 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -687,7 +687,11 @@ class FutureInvocation {
     }
     return false;
   }
-  void cancel() { signalConnection_.disconnect(); }
+  void cancel() {
+    signalConnection_.disconnect();
+    // the connection keeps the slot, which keeps the waiter blocked
+    signalConnection_ = {};
+  }
 
  private:
   ConnectionType signalConnection_;
-- 
2.43.0


From fad7c105fe92849da7705a644c481abccfbf7234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 22/76] fix: waitableConnect lost an emission made right after
 connecting

---
 include/maf/utils/SignalSlots.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index ef40cbc..08c2773 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -710,13 +710,15 @@ template <template <class, class...> class Signal_, class SlotKeeper_,
   auto prom = make_shared<promise<Params>>();
   auto f = prom->get_future();
   auto connection =
-      sig.connect([prom(move(prom))](typename SignalType::ConnectionPtrType con,
+      sig.connect([prom](typename SignalType::ConnectionPtrType con,
                                      ConstRef_<Args_>... args) {
         con->disconnect();
         prom->set_value({args...});
       });
 
-  if (connection.connected()) {
+  // the signal might be emitted already and the slot thereby be disconnected
+  if (connection.connected() ||
+      f.wait_for(chrono::seconds{0}) == future_status::ready) {
     FutureType ret(move(connection), move(sl), move(f));
     return ret;
   }
-- 
2.43.0


From 9f9cc7c8aeed5c7345f674ec5126c8844e42c622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 23/76] fix: observers connected as std::function missed the
 initial notification

---
 include/maf/utils/Observable.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index e7b2200..a4b4fc8 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -111,7 +111,6 @@ class ObservableBasic_ : public BasicSignal<SlotsKeeper_, SubStates_...> {
 
  public:
   using SlotsKeeperType = SlotsKeeper_;
-  using Base_::connect;
   using State = tuple<PurgeType_<SubStates_>...>;
   ObservableBasic_() = default;
   ObservableBasic_(ObservableBasic_&&) = default;
-- 
2.43.0


From 33726521bb4f13a04e6092eff9eb1ca69cac6255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 24/76] fix: Runnable auto delete flag was not initialised

---
 include/maf/threading/Runnable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
-- 
2.43.0


From f2090d70bf91d5995b91d684437fa71142af902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 25/76] fix: thread pools must not launch threads concurrently
 or after shutdown

---
 include/maf/threading/ThreadPoolImplBase.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..b282b9f 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,9 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    // tasks might be submitted by many threads, even during shutdown
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    if (!_stopped && _pool.size() < _maxThreadCount) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -51,6 +53,7 @@ public:
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -67,6 +70,10 @@ public:
   }
 
   void stopThePool() {
+    {
+      std::lock_guard<std::mutex> lock(_poolMutex);
+      _stopped = true;
+    }
     _taskQueue.close();
     stopRunningTasks();
     _taskQueue.clear(_fDone);
@@ -89,11 +96,13 @@ private:
   }
 
   std::vector<std::thread> _pool;
+  std::mutex _poolMutex;
+  bool _stopped = false;
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
-  unsigned int _maxThreadCount;
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
-- 
2.43.0


From 1de52b104172c3a97d1524f7ca33956a31814a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 26/76] fix: a task taken from the queue during pool shutdown
 missed its stop request

---
 include/maf/threading/ThreadPoolImplBase.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index b282b9f..75fa19f 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -83,9 +83,11 @@ public:
 private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
-    addToRunningTasks(task);
-    _fRun(task);
-    removeFromRunningTasks(task);
+    // a task taken right before shutdown would miss its stop request
+    if (addToRunningTasks(task)) {
+      _fRun(task);
+      removeFromRunningTasks(task);
+    }
     _fDone(task);
   }
   void coptRunPendingTask() {
@@ -107,9 +109,13 @@ private:
   TaskExc _fStop;
   TaskExc _fDone;
 
-  void addToRunningTasks(Task task) {
+  bool addToRunningTasks(Task task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    if (_taskQueue.isClosed()) {
+      return false;
+    }
     _runningTasks.push_back(std::move(task));
+    return true;
   }
   void removeFromRunningTasks(const Task &task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
-- 
2.43.0


From 805f4afc0eebbbc35cfc8f3dc6f6bdd44af4e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 27/76] fix: tasks submitted to a pool after shutdown leaked

---
 include/maf/threading/ThreadPoolImplBase.h | 6 +++++-
 include/maf/threading/ThreadSafeQueue.h    | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 75fa19f..e4203a5 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -48,7 +48,11 @@ public:
     }
   }
 
-  void run(Task task) { _taskQueue.push(std::move(task)); }
+  void run(Task task) {
+    if (!_taskQueue.push(task)) {
+      _fDone(task);
+    }
+  }
 
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 5a92d7d..779edce 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -21,19 +21,24 @@ class ThreadSafeQueue {
   ThreadSafeQueue() : closed_(false) {}
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
-  void push(const value_type &data) {
+  // returns false if the data was refused because the queue is closed
+  bool push(const value_type &data) {
     std::lock_guard lock(queue_);
     if (!isClosed()) {
       queue_->push(data);
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
-  void push(value_type &&data) {
+  bool push(value_type &&data) {
     std::lock_guard lock(queue_);
     if (!isClosed()) {
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
+      return true;
     }
+    return false;
   }
 
   template <
-- 
2.43.0


From 93d640b9c4ee8c414d56f51053b2e809221687ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 28/76] fix: dereferencing a guarded atomic object access
 returned a copy

---
 include/maf/threading/AtomicObject.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index 612e28b..b840b03 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -42,7 +42,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() {
       return std::addressof(this->pointed_->data_);
     }
-    decltype(auto) operator*() { return this->pointed_->data_; }
+    decltype(auto) operator*() { return (this->pointed_->data_); }
   };
 
   template <class _D>
@@ -71,7 +71,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() const {
       return std::addressof(Base_::pointed_->data_);
     }
-    decltype(auto) operator*() const { return this->pointed_->data_; }
+    decltype(auto) operator*() const { return (this->pointed_->data_); }
   };
 
   template <class _D, class _M>
-- 
2.43.0


From a081f39c7e41a1c2b889885b41243c7f35b1d544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 29/76] fix: deserializeBatch did not compile

---
 include/maf/utils/serialization/Serializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..3c53295 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -445,7 +445,8 @@ void serializeBatch(OStream &os, const Ts &...ts) {
 
 template <class IStream, typename... Ts>
 bool deserializeBatch(IStream &is, Ts &...ts) {
-  return deserialize(is, std::tie(ts...));
+  auto tp = std::tie(ts...);
+  return deserialize(is, tp);
 }
 
 template <class OStream>
-- 
2.43.0


From 36dd1d6a6f4d4520bbfa9915cac5717d173d5576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 30/76] fix: incomplete input must not be deserialized
 successfully

---
 include/maf/utils/serialization/Serializer.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 3c53295..5c3fc47 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -207,12 +207,12 @@ struct Serializer {
 
       using NormalTypeOfPointerType =
           std::remove_const_t<std::remove_pointer_t<PointerType>>;
-      auto success = true;
       p = nullptr;
       uint8_t isNotNull = 0;
 
       is.read(internal::to_cstr(&isNotNull), 1);
-      if (isNotNull) {
+      auto success = !is.fail();
+      if (success && isNotNull) {
         p = new NormalTypeOfPointerType{};
         success = maf::srz::deserialize(is, *p);
         if (!success) {
@@ -271,11 +271,11 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
-      if (success |= maf::srz::deserialize(is, size); success && size > 0) {
+      if (success = maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -313,8 +313,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
 
   bool deserialize(IStream &is, NCDType &value) {
     bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
+    if (success = maf::srz::deserialize(is, value.first); success) {
+      success = maf::srz::deserialize(is, value.second);
     }
     return success;
   }
@@ -339,9 +339,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From 0ea2d8ca070677ddd15a618d58f701da5240ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 31/76] fix: deserializing must replace the former content of
 strings and containers

---
 include/maf/utils/serialization/Serializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 5c3fc47..93a5250 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -271,6 +271,7 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
+      c.clear();
       if (success = maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
@@ -370,6 +371,7 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
 
   bool deserialize(IStream &is, SrType &value) {
     SizeType size = 0;
+    value.clear();
     if (maf::srz::deserialize(is, size)) {
       if (size > 0) {
         value.resize(size);
-- 
2.43.0


From d85cbdd6ed45f3eaf10e21df40df3aa374aa53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 32/76] fix: deserializing must not allocate by sizes which the
 input does not contain

---
 include/maf/utils/serialization/Serializer.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 93a5250..49ae77c 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -53,6 +53,10 @@ SizeType serializedSize(const T &value);
 
 namespace internal {
 
+// Sizes read from a stream are only trusted up to this number of elements,
+// beyond it the memory is allocated when the elements were really read
+inline constexpr SizeType MaxSizeStep = 4096;
+
 template <class Container, typename = void>
 struct ContainerReserver {
   static void reserve(Container & /*c*/, SizeType /*size*/) {}
@@ -62,7 +66,7 @@ template <typename Container>
 struct ContainerReserver<
     Container, std::void_t<decltype(std::declval<Container>().reserve(0))>> {
   static void reserve(Container &c, SizeType size) {
-    c.reserve(static_cast<size_t>(size));
+    c.reserve(static_cast<size_t>(size < MaxSizeStep ? size : MaxSizeStep));
   }
 };
 
@@ -373,9 +377,13 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
     SizeType size = 0;
     value.clear();
     if (maf::srz::deserialize(is, size)) {
-      if (size > 0) {
-        value.resize(size);
-        is.read(internal::to_cstr(&value[0]), size * sizeof(CharT));
+      // don't trust the size, it might come from another process
+      while (size > 0 && !is.fail()) {
+        auto current = value.size();
+        auto step = size < internal::MaxSizeStep ? size : internal::MaxSizeStep;
+        value.resize(current + step);
+        is.read(internal::to_cstr(&value[current]), step * sizeof(CharT));
+        size -= step;
       }
     }
     return !is.fail();
-- 
2.43.0


From 7705b7f4fc97741b5c5665b33d7fa6a2acfd7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 33/76] fix: deserializing a bool from any other byte than 0
 and 1

---
 include/maf/utils/serialization/Serializer.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 49ae77c..68b907d 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -177,7 +177,14 @@ struct Serializer {
 
     mc_enable_if_is_number_or_enum_(NumberOrEnum) static bool deserialize(
         IStream &is, NumberOrEnum &value) {
-      is.read(internal::to_cstr(&value), sizeof(NumberOrEnum));
+      if constexpr (std::is_same_v<NumberOrEnum, bool>) {
+        uint8_t byte = 0;  // other values than 0 and 1 are not valid for bool
+        static_assert(sizeof(bool) == sizeof(byte), "");
+        is.read(internal::to_cstr(&byte), sizeof(byte));
+        value = (byte != 0);
+      } else {
+        is.read(internal::to_cstr(&value), sizeof(NumberOrEnum));
+      }
       return !is.fail();
     }
 
-- 
2.43.0


From a24411c321297ade28ada41844d0067c6494df5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 34/76] fix: writing an enum value out of range read beyond the
 names

---
 include/maf/utils/StringifyableEnum.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/StringifyableEnum.h b/include/maf/utils/StringifyableEnum.h
index 3d2c89f..d741fc7 100644
--- a/include/maf/utils/StringifyableEnum.h
+++ b/include/maf/utils/StringifyableEnum.h
@@ -53,7 +53,9 @@
   constexpr const char *TheEnum##StrArr[] = {                           \
       mc_maf_for_each(MC_MAF_STRINGIFY, __VA_ARGS__) "_"};              \
   inline std::ostream &operator<<(std::ostream &os, TheEnum en) {       \
-    os << TheEnum##StrArr[static_cast<unsigned long long>(en)];         \
+    constexpr auto last = sizeof(TheEnum##StrArr) / sizeof(const char *) - 1; \
+    auto index = static_cast<unsigned long long>(en);                   \
+    os << TheEnum##StrArr[index < last ? index : last];                 \
     return os;                                                          \
   }                                                                     \
   static_assert(static_cast<base_type>(TheEnum::__) ==                  \
-- 
2.43.0


From f4fa297b6da43ec942d86b48e1fcc01dbba84692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 35/76] fix: sending to a receiver which goes away must fail,
 not raise SIGPIPE or report success

---
 .../ipc/LocalIPCBufferSenderImpl.cpp          | 43 +++++++++++--------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..7eb64d2 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -1,7 +1,5 @@
 #include "LocalIPCBufferSenderImpl.h"
 
-#define ns_global
-
 namespace maf {
 namespace messaging {
 namespace ipc {
@@ -21,6 +19,21 @@ static bool connectable(sockaddr_un *sockaddr) {
   }
   return fd != INVALID_FD;
 }
+
+// Send all bytes, a vanished receiver must not raise SIGPIPE
+static SizeType sendAll(SockFD fd, const char *bytes, SizeType size) {
+  SizeType totalSent = 0;
+  while (totalSent < size) {
+    auto sent =
+        ::send(fd, bytes + totalSent, size - totalSent, MSG_NOSIGNAL);
+    if (sent >= 0) {
+      totalSent += static_cast<SizeType>(sent);
+    } else if (errno != EINTR) {
+      break;
+    }
+  }
+  return totalSent;
+}
 }  // namespace
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
@@ -49,24 +62,16 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
     // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
-        written == sizeof(SizeType)) {
+    if (sendAll(fd, reinterpret_cast<const char *>(&payloadSize),
+                sizeof(SizeType)) == sizeof(SizeType)) {
       // Second write is to send payload content
-      do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
-            written != -1) {
-          totalWritten += written;
-        } else {
-          MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
-                           totalWritten);
-          acs = ActionCallStatus::FailedUnknown;
-          break;
-        }
-      } while (totalWritten < payloadSize);
-
-      acs = ActionCallStatus::Success;
+      totalWritten = sendAll(fd, payload.data(), payloadSize);
+      if (totalWritten == payloadSize) {
+        acs = ActionCallStatus::Success;
+      } else {
+        MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
+                         totalWritten);
+      }
     } else {
       MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
                        "] to receiver");
-- 
2.43.0


From 05c2009ad1dcf3dbbf42ce03a577c77be2ec8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 36/76] fix: local ipc addresses which differ by port only must
 not be the same, long names must not be probed

---
 .../client-server/ipc/LocalIPCBufferReceiverImpl.cpp  |  4 ++--
 .../client-server/ipc/LocalIPCBufferSenderImpl.cpp    | 11 +++++------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..ee83479 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -18,7 +18,7 @@ LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { stop(); }
 bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
   bool startable = false;
   myaddr_ = addr;
-  auto sockpath = myaddr_.get_name();
+  auto sockpath = constructSocketPath(myaddr_);
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
     setState(State::Initialized);
@@ -67,7 +67,7 @@ void LocalIPCBufferReceiverImpl::stop() {
     setState(State::Stopped);
     // trying connect to socket to wake the running thread
     if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
+      connectToSocket(constructSocketPath(myaddr_));
     }
   }
 }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index 7eb64d2..7286b4a 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -38,17 +38,16 @@ static SizeType sendAll(SockFD fd, const char *bytes, SizeType size) {
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
                                                 const Address &destination) {
-  return send(payload, destination.get_name());
+  return send(payload, constructSocketPath(destination));
 }
 
 Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
-  static thread_local sockaddr_un destSockAddr;
-  static thread_local Address destAddr;
-  if (destination != destAddr) {
-    destAddr = destination;
-    destSockAddr = createUnixAbstractSocketAddr(destAddr.get_name());
+  auto sockpath = constructSocketPath(destination);
+  if (!isValidSocketPath(sockpath)) {
+    return Availability::Unavailable;
   }
+  auto destSockAddr = createUnixAbstractSocketAddr(sockpath);
 
   return connectable(&destSockAddr) ? Availability::Available
                                     : Availability::Unavailable;
-- 
2.43.0


From c2f8e59ab134f83403b0f6c4ac5c229bc2bc102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 37/76] fix: a stopped local ipc receiver must end and release
 its address and descriptors

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 62 +++++++++++++------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  5 +-
 2 files changed, 48 insertions(+), 19 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index ee83479..48b3787 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -16,12 +16,18 @@ namespace local {
 LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { stop(); }
 
 bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
+  if (running()) {
+    return false;
+  }
+  deinit();
+  if (fdMySock_ != INVALID_FD) {
+    return false;  // Stopped but still about to end its running thread
+  }
   bool startable = false;
   myaddr_ = addr;
   auto sockpath = constructSocketPath(myaddr_);
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
@@ -41,38 +47,59 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
         MAF_LOGGER_ERROR("Coud not bind socket to address ", myaddr_.dump());
       }
     }
+    if (!startable) {
+      closeMySock();
+    }
   }
 
   return startable;
 }
 
 bool LocalIPCBufferReceiverImpl::start() {
+  auto expected = State::Initialized;
+  if (!state_.compare_exchange_strong(expected, State::Running)) {
+    return false;
+  }
+  bool succeeded = true;
   try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
-      waitAndProcessConnections();
-    } else {
-      return false;
-    }
+    waitAndProcessConnections();
   } catch (StoppedInterruption) {
   } catch (...) {
-    return false;
+    succeeded = false;
   }
-  return true;
+  setState(State::Stopped);
+  closeMySock();
+  return succeeded;
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
-    // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(constructSocketPath(myaddr_));
-    }
+  switch (state_.exchange(State::Stopped)) {
+    case State::Running:
+    case State::WaitingConnection: {
+      // Refuse new connections and wake the running thread, which closes the
+      // socket afterwards
+      std::lock_guard lock(mutexMySock_);
+      if (fdMySock_ != INVALID_FD) {
+        shutdown(fdMySock_, SHUT_RDWR);
+      }
+    } break;
+    case State::Initialized:
+      closeMySock();
+      break;
+    default:
+      break;
   }
 }
 
-void LocalIPCBufferReceiverImpl::deinit() {}
+void LocalIPCBufferReceiverImpl::deinit() { stop(); }
+
+void LocalIPCBufferReceiverImpl::closeMySock() {
+  std::lock_guard lock(mutexMySock_);
+  if (fdMySock_ != INVALID_FD) {
+    close(fdMySock_);
+    fdMySock_ = INVALID_FD;
+  }
+}
 
 bool LocalIPCBufferReceiverImpl::running() const {
   switch (getState()) {
@@ -179,7 +206,6 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
     }
   } while (true);
 
-  setState(State::Stopped);
   return true;
 }
 
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..5e8a024 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <future>
+#include <mutex>
 
 #include "SocketShared.h"
 
@@ -40,13 +41,15 @@ class LocalIPCBufferReceiverImpl {
   State getState() const { return state_.load(std::memory_order_acquire); }
   void setState(State state) { state_.store(state, std::memory_order_release); }
 
+  void closeMySock();
   bool waitAndProcessConnections();
   void changeCurrentStateAndInterruptIfStop(State expectedCurrentSate, State newStateState);
 
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
   sockaddr_un mySockAddr_;
-  int fdMySock_;
+  int fdMySock_ = INVALID_FD;
+  std::mutex mutexMySock_;
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From 97fcf3f400bf699621c96552108a0f6f13b4006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 38/76] fix: misbehaving peers must not block, end or exhaust a
 local ipc receiver

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 152 ++++++++++--------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  12 ++
 .../client-server/ipc/SocketShared.h          |   2 +-
 3 files changed, 97 insertions(+), 69 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 48b3787..945b3d5 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -3,9 +3,13 @@
 #include <arpa/inet.h>
 #include <maf/logging/Logger.h>
 #include <netinet/in.h>
+#include <poll.h>
 #include <stdlib.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+#include <vector>
+
 #include "SocketShared.h"
 
 namespace maf {
@@ -118,90 +122,54 @@ void LocalIPCBufferReceiverImpl::setObserver(BytesComeCallback callback) {
 }
 
 bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
-  auto maxSd = INVALID_FD;
-  socklen_t sockLen = sizeof(mySockAddr_);
-  std::vector<int> fdClientSocks(MAXCLIENTS, 0);
-  fd_set readfds;
+  // Connections in order of their acceptance
+  std::vector<Connection> connections;
+  std::vector<pollfd> pollFDs;
+  bool acceptable = true;
   do {
-    // clear the socket set
-    FD_ZERO(&readfds);
-
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
-    maxSd = fdMySock_;
-
-    // add child sockets to set
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      // socket descriptor
-      auto sd = fdClientSocks[i];
-
-      // if valid socket descriptor then add to read list
-      if (sd > 0) FD_SET(sd, &readfds);
-
-      // highest file descriptor number, need it for the select function
-      if (sd > maxSd) maxSd = sd;
+    pollFDs.clear();
+    // When there was no resource to accept further connections then wait for
+    // the accepted ones only
+    pollFDs.push_back(
+        {fdMySock_, static_cast<short>(acceptable ? POLLIN : 0), 0});
+    for (auto &connection : connections) {
+      pollFDs.push_back({connection.fd, POLLIN, 0});
     }
 
-    timeval timeout = {1, 0};
-
     changeCurrentStateAndInterruptIfStop(State::Running,
                                          State::WaitingConnection);
 
-    auto totalSD = select(maxSd + 1, &readfds, nullptr, nullptr, &timeout);
+    auto totalSD =
+        poll(pollFDs.data(), pollFDs.size(), acceptable ? 1000 : 50);
 
     changeCurrentStateAndInterruptIfStop(State::WaitingConnection,
                                          State::Running);
-
+    acceptable = true;
     if (totalSD <= 0) {
       continue;
     }
 
-    // If something happened on the master socket ,
-    // then its an incoming connection
-    if (FD_ISSET(fdMySock_, &readfds)) {
-      auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
-      if (acceptedSD < 0) {
-        MAF_LOGGER_ERROR("Failed on accepting new socket connection");
-        return false;
-      }
-
-      // add new socket to array of sockets
-      for (size_t i = 0; i < MAXCLIENTS; i++) {
-        // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
-          break;
-        }
+    // Serve the accepted connections first so that payloads of same sender,
+    // each of which comes on its own connection, keep their order
+    for (size_t i = 0; i < connections.size(); i++) {
+      if (pollFDs[i + 1].revents != 0 && !readFrom(connections[i])) {
+        connections[i].fd.reset();
       }
     }
+    connections.erase(
+        std::remove_if(connections.begin(), connections.end(),
+                       [](auto &conn) { return conn.fd == INVALID_FD; }),
+        connections.end());
 
-    // else its some IO operation on some other socket
-    for (size_t i = 0; i < MAXCLIENTS; i++) {
-      auto sd = fdClientSocks[i];
-      if (FD_ISSET(sd, &readfds)) {
-        SizeType messageLength = 0;
-        ssize_t totalRead = 0;
-        if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
-                                  sizeof(SizeType));
-            bytesRead == sizeof(SizeType)) {
-          auto payload = srz::Buffer{};
-          payload.resize(messageLength);
-          while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
-              totalRead += bytesRead;
-            } else {
-              MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
-                               totalRead, " total expected = ", messageLength);
-              break;
-            }
-          }
-          if (totalRead == messageLength) {
-            bytesComeCallback_(std::move(payload));
-          }
-        }
-        close(sd);
-        fdClientSocks[i] = 0;
+    // If something happened on the master socket ,
+    // then its an incoming connection
+    if (pollFDs[0].revents != 0) {
+      auto acceptedSD = accept(fdMySock_, nullptr, nullptr);
+      if (acceptedSD >= 0) {
+        connections.emplace_back(acceptedSD);
+      } else {
+        MAF_SOCKET_ERROR("Failed on accepting new socket connection");
+        acceptable = false;
       }
     }
   } while (true);
@@ -209,6 +177,54 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
   return true;
 }
 
+// Read what has come without waiting for more, returns false when nothing more
+// is expected from this connection
+bool LocalIPCBufferReceiverImpl::readFrom(Connection &connection) {
+  static constexpr size_t MaxChunkSize = 64 * 1024;
+  auto receive = [&connection](char *bytes, size_t size) {
+    ssize_t received = 0;
+    do {
+      received = recv(connection.fd, bytes, size, MSG_DONTWAIT);
+    } while (received < 0 && errno == EINTR);
+    return received;
+  };
+
+  while (true) {
+    ssize_t received = 0;
+    if (connection.sizeBytesRead < sizeof(SizeType)) {
+      received = receive(reinterpret_cast<char *>(&connection.payloadSize) +
+                             connection.sizeBytesRead,
+                         sizeof(SizeType) - connection.sizeBytesRead);
+      if (received > 0) {
+        connection.sizeBytesRead += static_cast<size_t>(received);
+      }
+    } else {
+      // Don't trust the announced size, get memory for what really comes only
+      auto totalRead = connection.payload.size();
+      auto chunkSize =
+          std::min<size_t>(connection.payloadSize - totalRead, MaxChunkSize);
+      connection.payload.resize(totalRead + chunkSize);
+      received = receive(connection.payload.data() + totalRead, chunkSize);
+      connection.payload.resize(
+          totalRead + static_cast<size_t>(std::max<ssize_t>(received, 0)));
+    }
+
+    if (connection.complete()) {
+      bytesComeCallback_(std::move(connection.payload));
+      return false;
+    }
+    if (received < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+      return true;
+    }
+    if (received <= 0) {
+      MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
+                       connection.payload.size(),
+                       " total expected = ", connection.payloadSize);
+      return false;
+    }
+  }
+}
+
 void LocalIPCBufferReceiverImpl::changeCurrentStateAndInterruptIfStop(
     State expectedCurrentSate, State newStateState) {
   state_.compare_exchange_strong(expectedCurrentSate, newStateState);
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 5e8a024..838d9e1 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -38,11 +38,23 @@ class LocalIPCBufferReceiverImpl {
 
   class StoppedInterruption {};
 
+  struct Connection {
+    explicit Connection(SockFD sd) : fd{sd} {}
+    bool complete() const {
+      return sizeBytesRead == sizeof(SizeType) && payload.size() == payloadSize;
+    }
+    AutoCloseFD<SockFD> fd;
+    SizeType payloadSize = 0;
+    size_t sizeBytesRead = 0;
+    srz::Buffer payload;
+  };
+
   State getState() const { return state_.load(std::memory_order_acquire); }
   void setState(State state) { state_.store(state, std::memory_order_release); }
 
   void closeMySock();
   bool waitAndProcessConnections();
+  bool readFrom(Connection &connection);
   void changeCurrentStateAndInterruptIfStop(State expectedCurrentSate, State newStateState);
 
   BytesComeCallback bytesComeCallback_;
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..28409ef 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -46,7 +46,7 @@ private:
       fd = INVALID_VALUE;
     }
   }
-  FileDescriptor fd;
+  FileDescriptor fd = INVALID_VALUE;
 };
 
 #define MAF_SOCKET_ERROR(...)                                                  \
-- 
2.43.0


From 4126dd08ddd27ee40ce91d6748733a432f6ead18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 39/76] fix: stopping a local ipc server right after its start
 never ended

---
 src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..90e3e5f 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,7 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
-- 
2.43.0


From dbfa9e17b2e03b99dd4adb09fe5cf8a069143238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:33 +0000
Subject: [PATCH 40/76] fix: updates of a blocking request must not be taken
 for its response

---
 .../client-server/ServiceRequester.cpp        | 22 ++++++++++++-------
 .../client-server/ServiceRequester.h          | 18 ++++++++++-----
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..e60994a 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -177,10 +177,12 @@ RegID ServiceRequester::sendMessageAsync(const OpID &operationID,
                                          OpCode operationCode,
                                          const CSPayloadIFPtr &msgContent,
                                          CSPayloadProcessCallback callback,
-                                         ActionCallStatus *callStatus) {
+                                         ActionCallStatus *callStatus,
+                                         bool ignoreUpdates) {
   auto csMsg = this->createCSMessage(operationID, operationCode, msgContent);
   return storeAndSendRequestToServer(requestEntriesMap_, csMsg,
-                                     std::move(callback), callStatus);
+                                     std::move(callback), callStatus,
+                                     ignoreUpdates);
 }
 
 CSPayloadIFPtr ServiceRequester::sendMessageSync(
@@ -203,7 +205,8 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
       };
 
   auto regID = sendMessageAsync(operationID, opCode, msgContent,
-                                std::move(onSyncMsgCallback), callStatus);
+                                std::move(onSyncMsgCallback), callStatus,
+                                /*ignoreUpdates=*/true);
 
   if (regID.valid()) {
     try {
@@ -450,9 +453,11 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
       for (auto itRegEntry = regEntries.begin(); itRegEntry != regEntries.end();
            ++itRegEntry) {
         if (itRegEntry->requestID == msg->requestID()) {
-          callback = itRegEntry->callback;
           if (msg->operationCode() != OpCode::PartialRequestUpdate) {
+            callback = itRegEntry->callback;
             regEntries.erase(itRegEntry);
+          } else if (!itRegEntry->ignoreUpdates) {
+            callback = itRegEntry->callback;
           }
           found = true;
           break;
@@ -500,11 +505,12 @@ ActionCallStatus ServiceRequester::sendMessageToServer(
 
 RegID ServiceRequester::storeAndSendRequestToServer(
     RegEntriesMap &regEntriesMap, const CSMessagePtr &outgoingMsg,
-    CSPayloadProcessCallback callback, ActionCallStatus *callStatus) {
+    CSPayloadProcessCallback callback, ActionCallStatus *callStatus,
+    bool ignoreUpdates) {
   RegID regID;
 
   storeRegEntry(regEntriesMap, outgoingMsg->operationID(), std::move(callback),
-                regID);
+                regID, ignoreUpdates);
 
   outgoingMsg->setRequestID(regID.requestID);
   auto status = sendMessageToServer(outgoingMsg);
@@ -521,13 +527,13 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID) {
+                                       RegID &regID, bool ignoreUpdates) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback));
+  regEntries.emplace_back(regID.requestID, std::move(callback), ignoreUpdates);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 90a15f4..2b119f0 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -22,10 +22,15 @@ struct ServiceRequester : public ServiceRequesterIF {
   struct RegEntry {
     RegID::RequestIDType requestID;
     CSPayloadProcessCallback callback;
+    // blocking requests are only interested in the response
+    bool ignoreUpdates = false;
 
     RegEntry() = default;
-    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback)
-        : requestID(requestID), callback(std::move(callback)) {}
+    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
+             bool ignoreUpdates = false)
+        : requestID(requestID),
+          callback(std::move(callback)),
+          ignoreUpdates(ignoreUpdates) {}
   };
 
   struct SyncRegEntry {
@@ -104,7 +109,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID sendMessageAsync(const OpID &operationID, OpCode operationCode,
                          const CSPayloadIFPtr &msgContent,
                          CSPayloadProcessCallback callback,
-                         ActionCallStatus *callStatus);
+                         ActionCallStatus *callStatus,
+                         bool ignoreUpdates = false);
 
   CSPayloadIFPtr sendMessageSync(const OpID &operationID, OpCode opCode,
                                  const CSPayloadIFPtr &msgContent,
@@ -123,10 +129,12 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID storeAndSendRequestToServer(RegEntriesMap &regEntriesMap,
                                     const CSMessagePtr &outgoingMsg,
                                     CSPayloadProcessCallback callback,
-                                    ActionCallStatus *callStatus);
+                                    ActionCallStatus *callStatus,
+                                    bool ignoreUpdates = false);
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
-                       CSPayloadProcessCallback callback, RegID &regID);
+                       CSPayloadProcessCallback callback, RegID &regID,
+                       bool ignoreUpdates = false);
 
   size_t removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
 
-- 
2.43.0


From 9803ad50f6f35c9941ce7b8a6ee8b2a9381473a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 41/76] fix: a request answered or aborted by several threads
 at once crashed the provider

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..820979b 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,7 +71,9 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
+    if (request) {
+      request->invalidate();
+    }
   }
   if (request) {
     return sendBackMessageToClient(csMsg);
-- 
2.43.0


From 0617ff0515b930ae272894e48704d73e5ad4441e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 42/76] fix: abort callbacks must only run for aborted
 requests, outside of locks

---
 .../maf/messaging/client-server/Request.cpp   | 33 ++++++++++++++-----
 .../maf/messaging/client-server/Request.h     |  3 +-
 .../client-server/ServiceProvider.cpp         | 16 +++------
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..a3f1e7a 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -11,9 +11,21 @@ Request::Request(std::shared_ptr<CSMessage> csMsg,
                  std::weak_ptr<ServiceProviderIF> svStub)
     : _csMsg(std::move(csMsg)), _svStub(std::move(svStub)), _valid(true) {}
 
-AbortRequestCallback Request::getAbortCallback() {
-  std::lock_guard lock(_mutex);
-  return _abortCallback;
+void Request::abort() {
+  AbortRequestCallback abortCallback;
+  {
+    std::lock_guard lock(_mutex);
+    if (_valid) {
+      _valid = false;
+      _aborted = true;
+      _svStub.reset();
+      abortCallback = std::move(_abortCallback);
+    }
+  }
+  // the callback might call back to this request
+  if (abortCallback) {
+    abortCallback();
+  }
 }
 
 OpCode Request::getOperationCode() const {
@@ -71,12 +83,17 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
-  if (!_valid) {
-    abortCallback();
-  } else {
-    _abortCallback = std::move(abortCallback);
+  {
+    std::lock_guard lock(_mutex);
+    if (!_aborted) {
+      // there's nothing left to abort once it was responded
+      if (_valid) {
+        _abortCallback = std::move(abortCallback);
+      }
+      return;
+    }
   }
+  abortCallback();
 }
 
 bool Request::invalidate() {
diff --git a/src/common/maf/messaging/client-server/Request.h b/src/common/maf/messaging/client-server/Request.h
index 97f77f6..9e1bd20 100644
--- a/src/common/maf/messaging/client-server/Request.h
+++ b/src/common/maf/messaging/client-server/Request.h
@@ -18,11 +18,12 @@ class Request : public RequestIF {
   AbortRequestCallback _abortCallback;
   mutable std::mutex _mutex;
   bool _valid;
+  bool _aborted = false;
 
   Request(std::shared_ptr<CSMessage> csMsg,
           std::weak_ptr<ServiceProviderIF> svStub);
   bool invalidate();
-  AbortRequestCallback getAbortCallback();
+  void abort();
   ActionCallStatus sendMsgBackToClient();
   void setOperationCode(OpCode opCode);
 
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 820979b..fd81317 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -285,16 +285,13 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
 }
 
 void ServiceProvider::invalidateAndRemoveAllRequests() {
-  std::lock_guard lock(requestsMap_);
-  for (auto &[opID, requests] : *requestsMap_) {
+  RequestMap::DataType abortedRequests;
+  abortedRequests.swap(*requestsMap_.atomic());
+  for (auto &[opID, requests] : abortedRequests) {
     for (auto &request : requests) {
-      request->invalidate();
-      if (auto abortCallback = request->getAbortCallback()) {
-        abortCallback();
-      }
+      request->abort();
     }
   }
-  regEntriesMap_->clear();
 }
 
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
@@ -320,10 +317,7 @@ void ServiceProvider::onRequestAborted(const CSMessagePtr &msg) {
     // Invalidate request then later respond from request itself
     // will not cause any race condition.
     // Must be considered carefully for bug fixing later
-    request->invalidate();
-    if (auto abortCallback = request->getAbortCallback()) {
-      abortCallback();
-    }
+    request->abort();
   }
 }
 
-- 
2.43.0


From 28d67cc421033c8705376245ec83ed00bccc3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 43/76] fix: requests and registrations stored right after the
 service got unavailable were never ended

---
 .../client-server/ServiceRequester.cpp        | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index e60994a..e48e738 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -166,7 +166,7 @@ void ServiceRequester::init() {}
 void ServiceRequester::deinit() {
   // Prematurely cancel the blocking requests that offers a chance to
   // waiting-thread to exit sooner then prevent some of tricky problems
-  requestEntriesMap_.atomic()->clear();
+  clearAllRequests();
 }
 
 bool ServiceRequester::serviceUnavailable() const noexcept {
@@ -301,7 +301,10 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
 
     registerMessage->setRequestID(regID.requestID);
 
-    auto status = sendMessageToServer(registerMessage);
+    // same as for requests, nobody clears entries stored after the service got
+    // unavailable
+    auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                       : sendMessageToServer(registerMessage);
     if (status != ActionCallStatus::Success) {
       removeRegEntry(registerEntriesMap_, regID);
       regID.clear();
@@ -487,11 +490,15 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
 }
 
 void ServiceRequester::clearAllRequests() {
-  requestEntriesMap_.atomic()->clear();
+  // the callbacks must be destroyed outside of the lock, what they own might
+  // call back to this
+  RegEntriesMap::DataType entries;
+  entries.swap(*requestEntriesMap_.atomic());
 }
 
 void ServiceRequester::clearAllRegisterEntries() {
-  registerEntriesMap_.atomic()->clear();
+  RegEntriesMap::DataType entries;
+  entries.swap(*registerEntriesMap_.atomic());
 }
 
 ActionCallStatus ServiceRequester::sendMessageToServer(
@@ -513,7 +520,10 @@ RegID ServiceRequester::storeAndSendRequestToServer(
                 regID, ignoreUpdates);
 
   outgoingMsg->setRequestID(regID.requestID);
-  auto status = sendMessageToServer(outgoingMsg);
+  // once the service got unavailable, there's nobody who clears entries which
+  // were stored after that
+  auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                     : sendMessageToServer(outgoingMsg);
   if (status != ActionCallStatus::Success) {
     removeRegEntry(regEntriesMap, regID);
     regID.clear();
-- 
2.43.0


From e0270c68935c4dbef6903f0900d0ec1c38e7480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 44/76] fix: the status of broadcasts told failure for success
 and the other way round

---
 .../messaging/client-server/ServiceProvider.cpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index fd81317..bc7096d 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -137,7 +137,7 @@ void ServiceProvider::broadcastServerSide(const OpID &opID,
 ActionCallStatus ServiceProvider::broadcastToClients(
     const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload) {
   using AddressList = std::vector<Address>;
-  bool success = false;
+  bool success = true;
   AddressList addresses;
 
   {  // locking _regEntriesMap block
@@ -156,12 +156,15 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     auto csMsg = createCSMessage(serviceID(), propertyID, opCode,
                                  RequestIDInvalid, payload);
 
+    success = false;
     auto trySendToDestinations =
-        [this, &csMsg](AddressList &addresses) -> AddressList {
+        [this, &csMsg, &success](AddressList &addresses) -> AddressList {
       AddressList busyReceivers;
       for (const auto &addr : addresses) {
         auto errCode = sendMessage(csMsg, addr);
         if (errCode == ActionCallStatus::Success) {
+          // success when succeeded to send msg to at least one receiver
+          success = true;
           MAF_LOGGER_INFO("Sent message id: ", csMsg->operationID(),
                           " from server side!");
         } else if (errCode == ActionCallStatus::ReceiverBusy) {
@@ -184,14 +187,11 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     if (!busyReceivers.empty()) {
       // If someones are busy, try with them once
       MAF_LOGGER_WARN("Trying to send message to busy addresses once again!");
-      busyReceivers = trySendToDestinations(busyReceivers);
+      trySendToDestinations(busyReceivers);
     }
-
-    // success when succeeded to send msg to at least one receiver
-    success = (busyReceivers.size() != addresses.size());
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  return success ? ActionCallStatus::Success
+                 : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
-- 
2.43.0


From 1d0183fb1f3fdeddf11353613a63cdf42a7d527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 45/76] fix: property values set or registered for concurrently
 were notified out of order

Values are now put in order together with storing them, and sent in that order
outside of the locks. A newly registered client gets the current value in the
same order.
---
 .../client-server/ServiceProvider.cpp         | 104 ++++++++++--------
 .../messaging/client-server/ServiceProvider.h |  15 ++-
 .../messaging/client-server/TaskSequencer.h   |  71 ++++++++++++
 3 files changed, 142 insertions(+), 48 deletions(-)
 create mode 100644 src/common/maf/messaging/client-server/TaskSequencer.h

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index bc7096d..d98af1b 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -84,45 +84,67 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
 
 ActionCallStatus ServiceProvider::setStatus(const OpID &propertyID,
                                             const CSPayloadIFPtr &newProperty) {
-  auto notify = false;
+  auto status = std::make_shared<AtomicStatus>(ActionCallStatus::NoAction);
   {
     std::lock_guard lock(propertyMap_);
     auto &currentProperty = (*propertyMap_)[propertyID];
     if (!currentProperty || !currentProperty->equal(newProperty.get())) {
       currentProperty = newProperty;
-      notify = true;
+      *status = ActionCallStatus::Success;
+      postPropertyUpdate(propertyID, newProperty, status);
+    } else {
+      MAF_LOGGER_INFO("Don't set status of property `", propertyID,
+                      "` due to unchanged!");
     }
   }
 
-  if (notify) {
-    return broadcast(propertyID, OpCode::StatusRegister, newProperty);
-  } else {
-    MAF_LOGGER_INFO("Don't set status of property `", propertyID,
-                    "` due to unchanged!");
-    return ActionCallStatus::NoAction;
-  }
+  propertyUpdates_.run(propertyID);
+  return *status;
 }
 
 ActionCallStatus ServiceProvider::removeProperty(const OpID &propertyID,
                                                  bool notify) {
-  propertyMap_.atomic()->erase(propertyID);
-  if (notify) {
-    return broadcast(propertyID, OpCode::StatusRegister, {});
-  } else {
-    return ActionCallStatus::Success;
+  auto status = std::make_shared<AtomicStatus>(ActionCallStatus::Success);
+  {
+    std::lock_guard lock(propertyMap_);
+    propertyMap_->erase(propertyID);
+    if (notify) {
+      postPropertyUpdate(propertyID, {}, status);
+    }
   }
+  propertyUpdates_.run(propertyID);
+  return *status;
 }
 
 ActionCallStatus ServiceProvider::broadcastSignal(
     const OpID &signalID, const CSPayloadIFPtr &signal) {
-  return broadcast(signalID, OpCode::SignalRegister, signal);
+  broadcastServerSide(signalID, signal);
+  return broadcastToClients(signalID, OpCode::SignalRegister, signal,
+                            registersOf(signalID));
 }
 
-ActionCallStatus ServiceProvider::broadcast(const OpID &propertyID,
-                                            OpCode opCode,
-                                            const CSPayloadIFPtr &payload) {
-  broadcastServerSide(propertyID, payload);
-  return broadcastToClients(propertyID, opCode, payload);
+void ServiceProvider::postPropertyUpdate(
+    const OpID &propertyID, const CSPayloadIFPtr &payload,
+    const std::shared_ptr<AtomicStatus> &status) {
+  // who registers later is told the latest status anyway
+  propertyUpdates_.post(
+      propertyID, [this, propertyID, payload, status,
+                   addresses = registersOf(propertyID)]() mutable {
+        broadcastServerSide(propertyID, payload);
+        *status = broadcastToClients(propertyID, OpCode::StatusRegister,
+                                     payload, std::move(addresses));
+      });
+}
+
+ServiceProvider::AddressList ServiceProvider::registersOf(const OpID &opID) {
+  AddressList addresses;
+  std::lock_guard lock(regEntriesMap_);
+  for (const auto &[clientAddress, registeredIDs] : *regEntriesMap_) {
+    if (registeredIDs.find(opID) != registeredIDs.end()) {
+      addresses.push_back(clientAddress);
+    }
+  }
+  return addresses;
 }
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
@@ -135,20 +157,9 @@ void ServiceProvider::broadcastServerSide(const OpID &opID,
 }
 
 ActionCallStatus ServiceProvider::broadcastToClients(
-    const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload) {
-  using AddressList = std::vector<Address>;
+    const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload,
+    AddressList addresses) {
   bool success = true;
-  AddressList addresses;
-
-  {  // locking _regEntriesMap block
-    std::lock_guard lock(regEntriesMap_);
-    for (const auto &[clientAddress, registeredPropertyIDs] : *regEntriesMap_) {
-      if (registeredPropertyIDs.find(propertyID) !=
-          registeredPropertyIDs.end()) {
-        addresses.push_back(clientAddress);
-      }
-    }
-  }  // locking _regEntriesMap block
 
   if (addresses.empty()) {
     MAF_LOGGER_WARN("There's no register for property: ", propertyID);
@@ -245,10 +256,22 @@ ActionCallStatus ServiceProvider::sendBackMessageToClient(
 }
 
 void ServiceProvider::onStatusChangeRegister(const CSMessagePtr &msg) {
-  // Do this for notifying status when changed
-  saveRegisterInfo(msg);
-  // Do this for server to update latest status for new registered client
-  updateLatestStatus(msg);
+  {
+    // the client must get the latest status before any status set after that
+    std::lock_guard lock(propertyMap_);
+    // Do this for notifying status when changed
+    saveRegisterInfo(msg);
+    // Do this for server to update latest status for new registered client
+    if (auto itStatus = propertyMap_->find(msg->operationID());
+        itStatus != propertyMap_->end() && itStatus->second) {
+      propertyUpdates_.post(msg->operationID(),
+                            [this, msg, status = itStatus->second] {
+                              msg->setPayload(status);
+                              sendBackMessageToClient(msg);
+                            });
+    }
+  }
+  propertyUpdates_.run(msg->operationID());
 }
 
 void ServiceProvider::onStatusChangeUnregister(const CSMessagePtr &msg) {
@@ -360,13 +383,6 @@ signal_slots::Connection ServiceProvider::registerNotification(
   return (*serverSideListenersMap_)[opID].connect(move(callback));
 }
 
-void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
-  if (auto currentStatus = getStatus(registerMsg->operationID())) {
-    registerMsg->setPayload(currentStatus);
-    sendBackMessageToClient(registerMsg);
-  }
-}
-
 void ServiceProvider::onStatusGetRequest(const CSMessagePtr &getMsg) {
   if (auto status = getStatus(getMsg->operationID())) {
     getMsg->setPayload(std::move(status));
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..fbb616b 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -6,6 +6,9 @@
 #include <list>
 #include <map>
 #include <set>
+#include <vector>
+
+#include "TaskSequencer.h"
 
 namespace maf {
 namespace messaging {
@@ -27,6 +30,8 @@ class ServiceProvider : public ServiceProviderIF,
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
   using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
+  using AddressList                               = std::vector<Address>;
+  using AtomicStatus                              = std::atomic<ActionCallStatus>;
   // clang-format on
  public:
   ServiceProvider(ServiceID sid, std::weak_ptr<ServerIF> server);
@@ -61,11 +66,13 @@ class ServiceProvider : public ServiceProviderIF,
   bool onIncomingMessage(const CSMessagePtr &msg) override;
 
  private:
-  ActionCallStatus broadcast(const OpID &propertyID, OpCode opCode,
-                             const CSPayloadIFPtr &payload);
+  void postPropertyUpdate(const OpID &propertyID, const CSPayloadIFPtr &payload,
+                          const std::shared_ptr<AtomicStatus> &status);
+  AddressList registersOf(const OpID &opID);
   void broadcastServerSide(const OpID &opID, const CSPayloadIFPtr &payload);
   ActionCallStatus broadcastToClients(const OpID &propertyID, OpCode opCode,
-                                      const CSPayloadIFPtr &payload);
+                                      const CSPayloadIFPtr &payload,
+                                      AddressList addresses);
   ActionCallStatus sendMessage(const CSMessagePtr &csMsg,
                                const Address &toAddr);
   ActionCallStatus sendBackMessageToClient(const CSMessagePtr &csMsg);
@@ -86,7 +93,6 @@ class ServiceProvider : public ServiceProviderIF,
   void onClientGoesOff(const CSMessagePtr &msg);
 
   void onActionRequest(const CSMessagePtr &msg);
-  void updateLatestStatus(const CSMessagePtr &registerMsg);
   void onStatusGetRequest(const CSMessagePtr &getMsg);
   RequestHandlerFunction getRequestHandlerCallback(const OpID &opID);
 
@@ -97,6 +103,7 @@ class ServiceProvider : public ServiceProviderIF,
   RequestMap                   requestsMap_;
   std::weak_ptr<ServerIF>      server_;
   PropertyMap                  propertyMap_;
+  TaskSequencer                propertyUpdates_;
   ServerSideListenersMap       serverSideListenersMap_;
   RequestHandlerMap            requestHandlerMap_;
   std::atomic<Availability>    availability_ = Availability::Unavailable;
diff --git a/src/common/maf/messaging/client-server/TaskSequencer.h b/src/common/maf/messaging/client-server/TaskSequencer.h
new file mode 100644
index 0000000..cc65d3c
--- /dev/null
+++ b/src/common/maf/messaging/client-server/TaskSequencer.h
@@ -0,0 +1,71 @@
+#pragma once
+
+#include <maf/messaging/client-server/CSTypes.h>
+
+#include <deque>
+#include <exception>
+#include <functional>
+#include <map>
+#include <mutex>
+
+namespace maf {
+namespace messaging {
+
+/**
+ * @brief Carries out tasks of the same key one after another, in the order they
+ * were posted, without any lock held. Tasks are usually posted while the state
+ * they tell about is locked and carried out after it was unlocked, by the first
+ * thread that calls run(); tasks posted meanwhile, also by other threads or by
+ * the tasks themselves, are left to that thread.
+ */
+class TaskSequencer {
+ public:
+  using Task = std::function<void()>;
+
+  void post(const OpID &key, Task task) {
+    std::lock_guard lock(mutex_);
+    sequences_[key].tasks.push_back(std::move(task));
+  }
+
+  void run(const OpID &key) {
+    std::exception_ptr error;
+    std::unique_lock lock(mutex_);
+    auto it = sequences_.find(key);
+    if (it == sequences_.end() || it->second.running) {
+      return;
+    }
+    auto &sequence = it->second;
+    sequence.running = true;
+    while (!sequence.tasks.empty()) {
+      auto task = std::move(sequence.tasks.front());
+      sequence.tasks.pop_front();
+      lock.unlock();
+      try {
+        task();
+      } catch (...) {
+        if (!error) {
+          error = std::current_exception();
+        }
+      }
+      task = {};
+      lock.lock();
+    }
+    sequences_.erase(it);
+    lock.unlock();
+    if (error) {
+      std::rethrow_exception(error);
+    }
+  }
+
+ private:
+  struct Sequence {
+    std::deque<Task> tasks;
+    bool running = false;
+  };
+
+  std::mutex mutex_;
+  std::map<OpID, Sequence> sequences_;
+};
+
+}  // namespace messaging
+}  // namespace maf
-- 
2.43.0


From c1270500689928650cf3194ceaacf0d4d1bb00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 46/76] fix: provider side listeners were called with the map
 of all listeners locked

---
 .../client-server/ServiceProvider.cpp         | 23 ++++++++++++++-----
 .../messaging/client-server/ServiceProvider.h |  2 +-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index d98af1b..8f7f6ac 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -149,10 +149,17 @@ ServiceProvider::AddressList ServiceProvider::registersOf(const OpID &opID) {
 
 void ServiceProvider::broadcastServerSide(const OpID &opID,
                                           const CSPayloadIFPtr &payload) {
-  LOCK(serverSideListenersMap_);
-  auto it = serverSideListenersMap_->find(opID);
-  if (it != serverSideListenersMap_->end()) {
-    it->second.notify(payload);
+  PropertyStatusChangedSignal *signal = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    auto it = serverSideListenersMap_->find(opID);
+    if (it != serverSideListenersMap_->end()) {
+      // listeners are never erased from the map, and might call back to this
+      signal = &it->second;
+    }
+  }
+  if (signal) {
+    signal->notify(payload);
   }
 }
 
@@ -379,8 +386,12 @@ bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
 
 signal_slots::Connection ServiceProvider::registerNotification(
     const OpID &opID, CSPayloadProcessCallback callback) {
-  LOCK(serverSideListenersMap_);
-  return (*serverSideListenersMap_)[opID].connect(move(callback));
+  PropertyStatusChangedSignal *signal = nullptr;
+  {
+    LOCK(serverSideListenersMap_);
+    signal = &(*serverSideListenersMap_)[opID];
+  }
+  return signal->connect(move(callback));
 }
 
 void ServiceProvider::onStatusGetRequest(const CSMessagePtr &getMsg) {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index fbb616b..392e2c3 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -24,7 +24,7 @@ class ServiceProvider : public ServiceProviderIF,
 
   using RequestPtr                                = std::shared_ptr<Request>;
   using PropertyPtr                               = CSPayloadIFPtr;
-  using PropertyStatusChangedSignal               = signal_slots::SignalST<PropertyPtr>;
+  using PropertyStatusChangedSignal               = signal_slots::Signal<PropertyPtr>;
   using RequestMap                                = OpIDMap<std::list<RequestPtr>>;
   using PropertyMap                               = OpIDMap<PropertyPtr>;
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
-- 
2.43.0


From aeed67639e342c368bfb9859803c26622b8e979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 47/76] fix: concurrent registering, unregistering and updates
 of properties lost or misordered values

A client which unregistered the last and registered the first callback at the
same time could end up unregistered at the service, a callback registered while
an update arrived missed it or got it before an older cached value, and the
cache kept values of removed properties. The status of further signal
registrations was never assigned.
---
 .../client-server/ServiceRequester.cpp        | 173 +++++++++++++-----
 .../client-server/ServiceRequester.h          |  13 +-
 2 files changed, 142 insertions(+), 44 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index e48e738..f898a96 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -6,6 +6,7 @@
 #include <maf/messaging/client-server/Exceptions.h>
 #include <maf/utils/Pointers.h>
 
+#include <algorithm>
 #include <variant>
 
 #define SET_ERROR_AND_RETURN_IF(condition, pErrorStore, errorValue, \
@@ -33,13 +34,9 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
   if (csMsg && csMsg->serviceID() == serviceID()) {
     switch (csMsg->operationCode()) {
       case OpCode::SignalRegister:
+      case OpCode::StatusRegister:
         onRegistersUpdated(csMsg);
         break;
-      case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
-          cachePropertyStatus(csMsg->operationID(), csMsg->payload());
-        }
-      } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
       case OpCode::StatusGet:
@@ -294,31 +291,100 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
                           {});
 
   RegID regID;
-  auto sameRegisterCount =
-      storeRegEntry(registerEntriesMap_, opID, callback, regID);
-  if (sameRegisterCount == 1) {
+  auto confirmed =
+      storeNotificationEntry(opID, opCode, std::move(callback), regID);
+  auto status = ActionCallStatus::Success;
+  if (!confirmed) {
     auto registerMessage = createCSMessage(opID, opCode);
 
     registerMessage->setRequestID(regID.requestID);
 
     // same as for requests, nobody clears entries stored after the service got
     // unavailable
-    auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
-                                       : sendMessageToServer(registerMessage);
-    if (status != ActionCallStatus::Success) {
-      removeRegEntry(registerEntriesMap_, regID);
+    status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                  : sendMessageToServer(registerMessage);
+    if (status == ActionCallStatus::Success) {
+      confirmNotificationEntry(regID);
+    } else {
+      removeNotificationEntry(regID);
       regID.clear();
     }
+  }
 
-    assign_ptr(callStatus, status);
-  } else if (opCode == OpCode::StatusRegister) {
+  assign_ptr(callStatus, status);
+  propertyUpdates_.run(opID);
+
+  return regID;
+}
+
+bool ServiceRequester::storeNotificationEntry(const OpID &opID, OpCode opCode,
+                                              CSPayloadProcessCallback callback,
+                                              RegID &regID) {
+  std::lock_guard lock(registerEntriesMap_);
+  // The order of ids is the order of changes in this map, see
+  // removeNotificationEntry
+  RegID::allocateUniqueID(regID, idMgr_);
+  regID.opID = opID;
+  auto &entries = (*registerEntriesMap_)[opID];
+  auto confirmed =
+      std::any_of(entries.begin(), entries.end(),
+                  [](const RegEntry &entry) { return entry.confirmed; });
+  if (confirmed && opCode == OpCode::StatusRegister) {
     if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
+      propertyUpdates_.post(opID, [callback, cachedProperty] {
+        callback(cachedProperty);
+      });
     }
-    assign_ptr(callStatus, ActionCallStatus::Success);
   }
+  entries.emplace_back(regID.requestID, std::move(callback));
+  entries.back().confirmed = confirmed;
+  return confirmed;
+}
 
-  return regID;
+void ServiceRequester::confirmNotificationEntry(const RegID &regID) {
+  std::lock_guard lock(registerEntriesMap_);
+  auto it = registerEntriesMap_->find(regID.opID);
+  if (it != registerEntriesMap_->end()) {
+    for (auto &entry : it->second) {
+      if (entry.requestID == regID.requestID) {
+        entry.confirmed = true;
+        break;
+      }
+    }
+  }
+}
+
+RegID ServiceRequester::removeNotificationEntry(const RegID &regID) {
+  RegID unregisterID;
+  std::list<RegEntry> removedEntries;
+  std::lock_guard lock(registerEntriesMap_);
+  auto it = registerEntriesMap_->find(regID.opID);
+  if (it != registerEntriesMap_->end()) {
+    auto &entries = it->second;
+    auto itEntry = std::find_if(entries.begin(), entries.end(),
+                                [&regID](const RegEntry &entry) {
+                                  return entry.requestID == regID.requestID;
+                                });
+    if (itEntry != entries.end()) {
+      removedEntries.splice(removedEntries.end(), entries, itEntry);
+      RegID::reclaimID(regID, idMgr_);
+    }
+    if (entries.empty()) {
+      registerEntriesMap_->erase(it);
+      removeCachedProperty(regID.opID);
+      // Another thread might register for the same id right after this, by
+      // their ids the server can tell which of both was last
+      RegID::allocateUniqueID(unregisterID, idMgr_);
+      unregisterID.opID = regID.opID;
+    }
+  }
+  return unregisterID;
+}
+
+void ServiceRequester::sendUnregister(const RegID &unregisterID) {
+  auto msg = createCSMessage(unregisterID.opID, OpCode::Unregister);
+  msg->setRequestID(unregisterID.requestID);
+  sendMessageToServer(msg);
 }
 
 CSMessagePtr ServiceRequester::createCSMessage(
@@ -351,16 +417,14 @@ RegID ServiceRequester::registerSignal(const OpID &eventID,
 ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
   auto callstatus = ActionCallStatus::Success;
   if (regID.valid()) {
-    auto propertyID = regID.opID;
-    auto totalRemainer = removeRegEntry(registerEntriesMap_, regID);
-    if (totalRemainer == 0) {
+    auto unregisterID = removeNotificationEntry(regID);
+    if (unregisterID.valid() || !subscribingProperty(regID.opID)) {
       // send unregister if no one from client side interested
       // in this propertyID anymore
-      removeCachedProperty(propertyID);
       if (serviceUnavailable()) {
         callstatus = ActionCallStatus::ServiceUnavailable;
-      } else {
-        sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+      } else if (unregisterID.valid()) {
+        sendUnregister(unregisterID);
       }
     }
   } else {
@@ -376,9 +440,20 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
   if (serviceUnavailable()) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
-    registerEntriesMap_.atomic()->erase(propertyID);
-    sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
-    removeCachedProperty(propertyID);
+    RegID unregisterID;
+    std::list<RegEntry> removedEntries;
+    {
+      std::lock_guard lock(registerEntriesMap_);
+      if (auto it = registerEntriesMap_->find(propertyID);
+          it != registerEntriesMap_->end()) {
+        removedEntries.swap(it->second);
+        registerEntriesMap_->erase(it);
+      }
+      removeCachedProperty(propertyID);
+      RegID::allocateUniqueID(unregisterID, idMgr_);
+      unregisterID.opID = propertyID;
+    }
+    sendUnregister(unregisterID);
   }
 
   return callstatus;
@@ -418,31 +493,38 @@ ActionCallStatus ServiceRequester::getStatus(
   return callstatus;
 }
 
-bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
+void ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
   std::vector<decltype(RegEntry::callback)> callbacks;
+  auto notify = [payload = msg->payload()](const auto &callbacks) {
+    for (auto &callback : callbacks) {
+      // the payload must be cloned here due to state of
+      // IByteStream will change if deserialize it
+      callback(payload ? CSPayloadIFPtr(payload->clone()) : payload);
+    }
+  };
 
   {
     std::lock_guard lock(registerEntriesMap_);
     auto it = registerEntriesMap_->find(msg->operationID());
-    if (it != registerEntriesMap_->end()) {
-      for (auto &regEntry : it->second) {
-        callbacks.push_back(regEntry.callback);
-      }
+    if (it == registerEntriesMap_->end()) {
+      return;
     }
-  }
-
-  if (auto payload = msg->payload()) {
-    for (auto &callback : callbacks) {
-      // the payload must be cloned here due to state of
-      // IByteStream will change if deserialize it
-      callback(CSPayloadIFPtr(payload->clone()));
+    for (auto &regEntry : it->second) {
+      callbacks.push_back(regEntry.callback);
     }
-  } else {
-    for (auto &callback : callbacks) {
-      callback(payload);
+    if (msg->operationCode() == OpCode::StatusRegister) {
+      // who registers after this gets the cached one, updates must be told in
+      // the same order as they are cached
+      cachePropertyStatus(msg->operationID(), msg->payload());
+      propertyUpdates_.post(
+          msg->operationID(),
+          [notify, callbacks = std::move(callbacks)] { notify(callbacks); });
+      callbacks.clear();
     }
   }
-  return !callbacks.empty();
+
+  notify(callbacks);
+  propertyUpdates_.run(msg->operationID());
 }
 
 void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
@@ -586,7 +668,12 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
 
 void ServiceRequester::cachePropertyStatus(const OpID &propertyID,
                                            CSPayloadIFPtr &&property) {
-  propertiesCache_.atomic()->insert_or_assign(propertyID, std::move(property));
+  if (property) {
+    propertiesCache_.atomic()->insert_or_assign(propertyID,
+                                                std::move(property));
+  } else {
+    removeCachedProperty(propertyID);
+  }
 }
 
 void ServiceRequester::removeCachedProperty(const OpID &propertyID) {
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 2b119f0..e868f57 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -13,6 +13,8 @@
 #include <set>
 #include <variant>
 
+#include "TaskSequencer.h"
+
 namespace maf {
 namespace messaging {
 
@@ -24,6 +26,8 @@ struct ServiceRequester : public ServiceRequesterIF {
     CSPayloadProcessCallback callback;
     // blocking requests are only interested in the response
     bool ignoreUpdates = false;
+    // the server knows about the registration
+    bool confirmed = false;
 
     RegEntry() = default;
     RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
@@ -120,7 +124,13 @@ struct ServiceRequester : public ServiceRequesterIF {
   CSMessagePtr createCSMessage(const OpID &opID, OpCode opCode,
                                const CSPayloadIFPtr &msgContent = nullptr);
 
-  bool onRegistersUpdated(const CSMessagePtr &msg);
+  bool storeNotificationEntry(const OpID &opID, OpCode opCode,
+                              CSPayloadProcessCallback callback, RegID &regID);
+  void confirmNotificationEntry(const RegID &regID);
+  RegID removeNotificationEntry(const RegID &regID);
+  void sendUnregister(const RegID &unregisterID);
+
+  void onRegistersUpdated(const CSMessagePtr &msg);
   void onRequestResult(const CSMessagePtr &msg);
   void clearAllRequests();
   void clearAllRegisterEntries();
@@ -148,6 +158,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegEntriesMap requestEntriesMap_;
   ServiceStatusObservers serviceStatusObservers_;
   CSMsgContentMap propertiesCache_;
+  TaskSequencer propertyUpdates_;
   std::weak_ptr<ClientIF> client_;
   CSIDManager idMgr_;
   ServiceID sid_;
-- 
2.43.0


From 04c5a0213457117ebf2acafa2a82a01044006b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 48/76] fix: provider side listeners of local ipc services
 missed the removal of properties

---
 include/maf/messaging/client-server/BasicStub.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/BasicStub.h b/include/maf/messaging/client-server/BasicStub.h
index 0deadb1..feb7203 100644
--- a/include/maf/messaging/client-server/BasicStub.h
+++ b/include/maf/messaging/client-server/BasicStub.h
@@ -278,7 +278,8 @@ CSPayloadProcessCallback BasicStub<PTrait>::createPayloadProcessCallback(
       auto transStatus = TranslationStatus::Success;
       auto translated =
           PTrait::template translate<CSParam>(payload, &transStatus);
-      if (transStatus == TranslationStatus::Success) {
+      // there's no payload when a property has been removed
+      if (transStatus == TranslationStatus::Success || !payload) {
         callback(translated);
       } else {
         MAF_LOGGER_ERROR("Cannot translate message of type: ",
-- 
2.43.0


From 3f6d0f424a5307edab7b0a552769af815b71ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 49/76] fix: property values cached before a service restarted
 were told as its current ones

---
 src/common/maf/messaging/client-server/ServiceRequester.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index f898a96..06b112f 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -246,6 +246,10 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
   if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
+    if (newStatus == Availability::Available) {
+      // cached in the service's former life
+      propertiesCache_.atomic()->clear();
+    }
     serviceStatus_ = newStatus;
     if (newStatus == Availability::Unavailable) {
       serviceStatus_ = Availability::Unavailable;
-- 
2.43.0


From c274ebef99e2dd463c5838b1b6ab96b4315426a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 50/76] fix: getStatus of a subscribed property returned
 nothing until its first update

and the asynchronous one did not report a failure to send.
---
 .../client-server/ServiceRequester.cpp        | 22 +++++++++----------
 .../client-server/ServiceRequester.h          |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 06b112f..9eddc19 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -469,13 +469,10 @@ CSPayloadIFPtr ServiceRequester::getStatus(const OpID &propertyID,
   if (serviceUnavailable()) {
     assign_ptr(callStatus, ActionCallStatus::ServiceUnavailable);
     return getCachedProperty(propertyID);
-  } else if (subscribingProperty(propertyID)) {
+  } else if (auto cachedProperty = getUpToDateProperty(propertyID)) {
     assign_ptr(callStatus, ActionCallStatus::Success);
-    return getCachedProperty(propertyID);
+    return cachedProperty;
   } else {
-    SET_ERROR_AND_RETURN_IF(serviceUnavailable(), callStatus,
-                            ActionCallStatus::ServiceUnavailable, {});
-
     return sendMessageSync(propertyID, OpCode::StatusGet, {}, callStatus,
                            timeout);
   }
@@ -488,11 +485,11 @@ ActionCallStatus ServiceRequester::getStatus(
   if (serviceUnavailable()) {
     callback(getCachedProperty(propertyID));
     callstatus = ActionCallStatus::ServiceUnavailable;
-  } else if (subscribingProperty(propertyID)) {
-    callback(getCachedProperty(propertyID));
+  } else if (auto cachedProperty = getUpToDateProperty(propertyID)) {
+    callback(cachedProperty);
   } else {
     sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
-                     nullptr);
+                     &callstatus);
   }
   return callstatus;
 }
@@ -684,9 +681,12 @@ void ServiceRequester::removeCachedProperty(const OpID &propertyID) {
   propertiesCache_.atomic()->erase(propertyID);
 }
 
-bool ServiceRequester::cachedPropertyUpToDate(const OpID &propertyID) const {
-  std::lock_guard lock(propertiesCache_);
-  return propertiesCache_->find(propertyID) != propertiesCache_->end();
+CSPayloadIFPtr ServiceRequester::getUpToDateProperty(
+    const OpID &propertyID) const {
+  // the cache is only updated while subscribing, and has nothing until the
+  // first update after that
+  return subscribingProperty(propertyID) ? getCachedProperty(propertyID)
+                                         : CSPayloadIFPtr{};
 }
 
 bool ServiceRequester::subscribingProperty(const OpID &propertyID) const {
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index e868f57..fb0448c 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -151,7 +151,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   CSPayloadIFPtr getCachedProperty(const OpID &propertyID) const;
   void cachePropertyStatus(const OpID &propertyID, CSPayloadIFPtr &&property);
   void removeCachedProperty(const OpID &propertyID);
-  bool cachedPropertyUpToDate(const OpID &propertyID) const;
+  CSPayloadIFPtr getUpToDateProperty(const OpID &propertyID) const;
   bool subscribingProperty(const OpID &propertyID) const;
 
   RegEntriesMap registerEntriesMap_;
-- 
2.43.0


From 044d615fc30ba884fd21c8972520b9327b8cc922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:14 +0000
Subject: [PATCH 51/76] fix: availability observers were called with locks
 held, out of order and with wrong values

---
 .../messaging/client-server/ClientBase.cpp    |  20 +++-
 .../messaging/client-server/ServiceProvider.h |   2 +-
 .../client-server/ServiceRequester.cpp        | 105 +++++++++++-------
 .../client-server/ServiceRequester.h          |  11 +-
 .../messaging/client-server/TaskSequencer.h   |   7 +-
 5 files changed, 91 insertions(+), 54 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..66b18d6 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -14,8 +14,9 @@ void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
     _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // the observers might call back to this
+    auto requesters = *_requestersMap.atomic();
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -28,10 +29,17 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
                   "]: ", oldStatus, "-->", newStatus);
 
   (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  ServiceRequesterIFPtr requester;
+  {
+    // the observers might call back to this
+    std::lock_guard lock(_requestersMap);
+    auto itProxy = _requestersMap->find(sid);
+    if (itProxy != _requestersMap->end()) {
+      requester = itProxy->second;
+    }
+  }
+  if (requester) {
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 392e2c3..5cc5a4f 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -103,7 +103,7 @@ class ServiceProvider : public ServiceProviderIF,
   RequestMap                   requestsMap_;
   std::weak_ptr<ServerIF>      server_;
   PropertyMap                  propertyMap_;
-  TaskSequencer                propertyUpdates_;
+  TaskSequencer<>              propertyUpdates_;
   ServerSideListenersMap       serverSideListenersMap_;
   RequestHandlerMap            requestHandlerMap_;
   std::atomic<Availability>    availability_ = Availability::Unavailable;
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 9eddc19..8a5e7b6 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -117,23 +117,22 @@ void ServiceRequester::abortRequest(const RegID &regID,
 void ServiceRequester::registerServiceStatusObserver(
     ServiceStatusObserverPtr observer) {
   if (observer) {
-    Availability currentServiceStatus;
     {
       // both getting serviceStatus and pushing observer
       // to list must be in critical section to make sure
       // observer will never be missed the latest status event
       std::lock_guard lock(serviceStatusObservers_);
-      currentServiceStatus = serviceStatus();
       serviceStatusObservers_->push_back(observer);
+      if (serviceStatus() == Availability::Available) {
+        postServiceStatusUpdate(observer, Availability::Unknown,
+                                Availability::Available);
+      }
     }
 
-    if (currentServiceStatus == Availability::Available) {
-      // dont execute notification in critical section,
-      // that might block other thread to update service status
-      // when status has changed
-      observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
-                                       Availability::Available);
-    }
+    // dont execute notification in critical section,
+    // that might block other thread to update service status
+    // when status has changed
+    statusUpdates_.run(observer.get());
   }
 }
 
@@ -245,46 +244,72 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability oldStatus,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
-  if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
+  if (sid != serviceID()) {
+    return;
+  }
+
+  ServiceStatusObservers::DataType observers;
+  {
+    std::lock_guard lock(serviceStatusObservers_);
+    if (newStatus == serviceStatus_) {
+      return;
+    }
     if (newStatus == Availability::Available) {
       // cached in the service's former life
       propertiesCache_.atomic()->clear();
     }
-    serviceStatus_ = newStatus;
-    if (newStatus == Availability::Unavailable) {
-      serviceStatus_ = Availability::Unavailable;
-      clearAllRequests();
-      clearAllRegisterEntries();
+    // the observers are told about this requester's view of the service
+    oldStatus = serviceStatus_.exchange(newStatus);
+    observers = *serviceStatusObservers_;
+    for (auto &observer : observers) {
+      postServiceStatusUpdate(observer, oldStatus, newStatus);
     }
-    forwardServiceStatusToObservers(sid, oldStatus, newStatus);
+  }
+
+  if (newStatus == Availability::Unavailable) {
+    clearAllRequests();
+    clearAllRegisterEntries();
+  }
+  for (auto &observer : observers) {
+    statusUpdates_.run(observer.get());
   }
 }
 
-void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
-                                                       Availability oldStatus,
-                                                       Availability newStatus) {
-  std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
-    try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
-    } catch (const UnavailableException &) {
-      MAF_LOGGER_WARN(
-          "An observer of ", sid,
-          " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
-    } catch (const std::exception &e) {
-      MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
-                      " when notify service status change of ", sid);
-      throw;
-    } catch (...) {
-      MAF_LOGGER_WARN(
-          "UNKNOWN EXCEPTION occurred when notify service status change of ",
-          sid);
-      throw;
+void ServiceRequester::postServiceStatusUpdate(
+    const ServiceStatusObserverPtr &observer, Availability oldStatus,
+    Availability newStatus) {
+  statusUpdates_.post(observer.get(), [this, observer, oldStatus, newStatus] {
+    forwardServiceStatusToObserver(observer, oldStatus, newStatus);
+  });
+}
+
+void ServiceRequester::forwardServiceStatusToObserver(
+    const ServiceStatusObserverPtr &observer, Availability oldStatus,
+    Availability newStatus) {
+  {
+    std::lock_guard lock(serviceStatusObservers_);
+    if (std::find(serviceStatusObservers_->begin(),
+                  serviceStatusObservers_->end(),
+                  observer) == serviceStatusObservers_->end()) {
+      return;
     }
-    ++itO;
+  }
+  try {
+    observer->onServiceStatusChanged(serviceID(), oldStatus, newStatus);
+  } catch (const UnavailableException &) {
+    MAF_LOGGER_WARN(
+        "An observer of ", serviceID(),
+        " is no longer available, then remove it from list observers");
+    unregisterServiceStatusObserver(observer);
+  } catch (const std::exception &e) {
+    MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
+                    " when notify service status change of ", serviceID());
+    throw;
+  } catch (...) {
+    MAF_LOGGER_WARN(
+        "UNKNOWN EXCEPTION occurred when notify service status change of ",
+        serviceID());
+    throw;
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index fb0448c..d19ac72 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -101,9 +101,11 @@ struct ServiceRequester : public ServiceRequesterIF {
                               Availability newStatus) override;
 
  private:
-  void forwardServiceStatusToObservers(const ServiceID &sid,
-                                       Availability oldStatus,
-                                       Availability newStatus);
+  void postServiceStatusUpdate(const ServiceStatusObserverPtr &observer,
+                               Availability oldStatus, Availability newStatus);
+  void forwardServiceStatusToObserver(const ServiceStatusObserverPtr &observer,
+                                      Availability oldStatus,
+                                      Availability newStatus);
 
   RegID registerNotification(const OpID &opID, OpCode opCode,
                              CSPayloadProcessCallback callback,
@@ -158,7 +160,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegEntriesMap requestEntriesMap_;
   ServiceStatusObservers serviceStatusObservers_;
   CSMsgContentMap propertiesCache_;
-  TaskSequencer propertyUpdates_;
+  TaskSequencer<> propertyUpdates_;
+  TaskSequencer<const ServiceStatusObserverIF *> statusUpdates_;
   std::weak_ptr<ClientIF> client_;
   CSIDManager idMgr_;
   ServiceID sid_;
diff --git a/src/common/maf/messaging/client-server/TaskSequencer.h b/src/common/maf/messaging/client-server/TaskSequencer.h
index cc65d3c..929e850 100644
--- a/src/common/maf/messaging/client-server/TaskSequencer.h
+++ b/src/common/maf/messaging/client-server/TaskSequencer.h
@@ -18,16 +18,17 @@ namespace messaging {
  * thread that calls run(); tasks posted meanwhile, also by other threads or by
  * the tasks themselves, are left to that thread.
  */
+template <typename Key = OpID>
 class TaskSequencer {
  public:
   using Task = std::function<void()>;
 
-  void post(const OpID &key, Task task) {
+  void post(const Key &key, Task task) {
     std::lock_guard lock(mutex_);
     sequences_[key].tasks.push_back(std::move(task));
   }
 
-  void run(const OpID &key) {
+  void run(const Key &key) {
     std::exception_ptr error;
     std::unique_lock lock(mutex_);
     auto it = sequences_.find(key);
@@ -64,7 +65,7 @@ class TaskSequencer {
   };
 
   std::mutex mutex_;
-  std::map<OpID, Sequence> sequences_;
+  std::map<Key, Sequence> sequences_;
 };
 
 }  // namespace messaging
-- 
2.43.0


From 033dafae5edd2b8a6533bd3b5e38ba0691b1ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:05 +0000
Subject: [PATCH 52/76] fix: concurrent starts and stops of a service left
 clients with a wrong availability

---
 .../client-server/ServiceProvider.cpp         | 28 +++++++++++++------
 .../messaging/client-server/ServiceProvider.h |  4 +++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 8f7f6ac..90909d5 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -233,19 +233,29 @@ void ServiceProvider::deinit() {
 }
 
 void ServiceProvider::startServing() {
-  availability_ = Availability::Available;
-  if (auto server = server_.lock()) {
-    server->onServiceStatusChanged(serviceID(), Availability::Unavailable,
-                                   Availability::Available);
-  }
+  changeAvailability(Availability::Available);
 }
 
 void ServiceProvider::stopServing() {
-  availability_ = Availability::Unavailable;
-  if (auto server = server_.lock()) {
-    server->onServiceStatusChanged(serviceID(), Availability::Available,
-                                   Availability::Unavailable);
+  changeAvailability(Availability::Unavailable);
+}
+
+void ServiceProvider::changeAvailability(Availability newAvailability) {
+  {
+    // clients must be told the changes in the order they were made
+    std::lock_guard lock(availabilityMutex_);
+    auto oldAvailability = availability_.exchange(newAvailability);
+    if (oldAvailability != newAvailability) {
+      availabilityUpdates_.post(
+          serviceID(), [this, oldAvailability, newAvailability] {
+            if (auto server = server_.lock()) {
+              server->onServiceStatusChanged(serviceID(), oldAvailability,
+                                             newAvailability);
+            }
+          });
+    }
   }
+  availabilityUpdates_.run(serviceID());
 }
 
 ActionCallStatus ServiceProvider::sendMessage(const CSMessagePtr &csMsg,
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 5cc5a4f..b0f3f40 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -5,6 +5,7 @@
 #include <atomic>
 #include <list>
 #include <map>
+#include <mutex>
 #include <set>
 #include <vector>
 
@@ -66,6 +67,7 @@ class ServiceProvider : public ServiceProviderIF,
   bool onIncomingMessage(const CSMessagePtr &msg) override;
 
  private:
+  void changeAvailability(Availability newAvailability);
   void postPropertyUpdate(const OpID &propertyID, const CSPayloadIFPtr &payload,
                           const std::shared_ptr<AtomicStatus> &status);
   AddressList registersOf(const OpID &opID);
@@ -107,6 +109,8 @@ class ServiceProvider : public ServiceProviderIF,
   ServerSideListenersMap       serverSideListenersMap_;
   RequestHandlerMap            requestHandlerMap_;
   std::atomic<Availability>    availability_ = Availability::Unavailable;
+  std::mutex                   availabilityMutex_;
+  TaskSequencer<>              availabilityUpdates_;
   // clang-format on
 };
 
-- 
2.43.0


From 384c716193fcfb61c735a28c982078ca40274161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 53/76] fix: clients kept treating services of a server which
 was shut down as available, and were deaf after its restart

---
 src/common/maf/messaging/client-server/ServerBase.cpp |  5 +++--
 .../messaging/client-server/ipc/LocalIPCClient.cpp    | 11 +++++++++++
 .../messaging/client-server/ipc/LocalIPCServer.cpp    |  9 +++++++++
 .../maf/messaging/client-server/ipc/LocalIPCServer.h  |  1 +
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServerBase.cpp b/src/common/maf/messaging/client-server/ServerBase.cpp
index 16fb8a8..7778b5f 100644
--- a/src/common/maf/messaging/client-server/ServerBase.cpp
+++ b/src/common/maf/messaging/client-server/ServerBase.cpp
@@ -34,11 +34,12 @@ bool ServerBase::onIncomingMessage(const CSMessagePtr &csMsg) {
 bool ServerBase::init(const Address &) { return true; }
 
 void ServerBase::deinit() {
-  auto providers = std::move(*providers_.atomic());
-
+  // clients are told about services of known providers only
+  auto providers = *providers_.atomic();
   for (auto &[_, provider] : providers) {
     provider->stopServing();
   }
+  providers.swap(*providers_.atomic());
   for (auto &[_, provider] : providers) {
     provider->deinit();
   }
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index 0adbed4..e7e3765 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -40,6 +40,7 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
  protected:
   void monitorServerStatus(long long intervalMs = 0);
   void onBytesCome(srz::Buffer &&buff) override;
+  bool onIncomingMessage(const CSMessagePtr &msg) override;
 
   Address myServerAddress_;
 
@@ -152,6 +153,16 @@ void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
   });
 }
 
+bool LocalIPCClient::onIncomingMessage(const CSMessagePtr &msg) {
+  if (msg->operationCode() == OpCode::ServiceStatusUpdate &&
+      msg->serviceID() == ServiceIDInvalid) {
+    // the server was shut down, register again as soon as there is one
+    onServerStatusChanged(currentServerStatus_, Availability::Unavailable);
+    return true;
+  }
+  return ClientBase::onIncomingMessage(msg);
+}
+
 std::shared_ptr<ClientIF> makeClient() {
   return std::make_shared<LocalIPCClient>();
 }
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 90e3e5f..3273481 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -41,6 +41,15 @@ void LocalIPCServer::stop() {
   }
 }
 
+void LocalIPCServer::deinit() {
+  ServerBase::deinit();
+  // another server might be started at this address before the clients notice
+  // that this one is gone, and doesn't know them
+  notifyServiceStatusToClient(ServiceIDInvalid, Availability::Available,
+                              Availability::Unavailable);
+  registedClAddrs_.atomic()->clear();
+}
+
 ActionCallStatus LocalIPCServer::sendMessageToClient(const CSMessagePtr &msg,
                                                      const Address &addr) {
   assert(msg != nullptr);
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.h b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.h
index 28fa922..9f3b420 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.h
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.h
@@ -23,6 +23,7 @@ class LocalIPCServer : public ServerBase, public BytesComeObserver {
   bool init(const Address &serverAddress) override;
   bool start() override;
   void stop() override;
+  void deinit() override;
 
   ActionCallStatus sendMessageToClient(const CSMessagePtr &msg,
                                        const Address &addr) override;
-- 
2.43.0


From e7416194d489d880fa63c150e0d99c30d6c736ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 54/76] fix: proxies created after the clients were shut down
 never got connected

---
 .../messaging/client-server/ClientFactory.cpp |  2 +
 .../client-server/ipc/LocalIPCClient.cpp      | 47 ++++++++++++++-----
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientFactory.cpp b/src/common/maf/messaging/client-server/ClientFactory.cpp
index 8d76b25..99f924e 100644
--- a/src/common/maf/messaging/client-server/ClientFactory.cpp
+++ b/src/common/maf/messaging/client-server/ClientFactory.cpp
@@ -58,6 +58,8 @@ class ClientFactoryImpl {
         client->deinit();
       }
     }
+    // the stopped ones are of no use for later proxies
+    _clientMap->clear();
   }
 };
 
diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
index e7e3765..2f4ead7 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCClient.cpp
@@ -4,6 +4,7 @@
 #include <maf/messaging/Timer.h>
 #include <maf/utils/Process.h>
 
+#include <atomic>
 #include <cassert>
 #include <future>
 #include <thread>
@@ -39,6 +40,7 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
 
  protected:
   void monitorServerStatus(long long intervalMs = 0);
+  std::weak_ptr<LocalIPCClient> weakThis();
   void onBytesCome(srz::Buffer &&buff) override;
   bool onIncomingMessage(const CSMessagePtr &msg) override;
 
@@ -46,6 +48,7 @@ class LocalIPCClient : public ClientBase, public BytesComeObserver {
 
   Timer serverMonitorTimer_;
   std::thread receiverThread_;
+  std::atomic<bool> stopped_ = false;
 
   std::unique_ptr<BufferSenderIF> pSender_;
   std::unique_ptr<BufferReceiverIF> pReceiver_;
@@ -74,13 +77,20 @@ bool LocalIPCClient::init(const Address &serverAddress) {
 
 bool LocalIPCClient::start() {
   receiverThread_ = std::thread{[this] { pReceiver_->start(); }};
-  single_threadpool::submit([this] { monitorServerStatus(); });
+  single_threadpool::submit([weakThis = weakThis()] {
+    if (auto this_ = weakThis.lock()) {
+      this_->monitorServerStatus();
+    }
+  });
   return true;
 }
 
 void LocalIPCClient::stop() {
+  stopped_ = true;
   pReceiver_->stop();
-  serverMonitorTimer_.stop();
+  // the timer belongs to the thread on which it was started
+  single_threadpool::submit(
+      [this_ = weakThis().lock()] { this_->serverMonitorTimer_.stop(); });
   if (receiverThread_.joinable()) {
     receiverThread_.join();
   }
@@ -125,7 +135,14 @@ void LocalIPCClient::onServerStatusChanged(Availability oldStatus,
   }
 }
 
+std::weak_ptr<LocalIPCClient> LocalIPCClient::weakThis() {
+  return std::static_pointer_cast<LocalIPCClient>(weak_from_this().lock());
+}
+
 void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
+  if (stopped_) {
+    return;
+  }
   if (auto newStatus = pSender_->checkReceiverStatus(myServerAddress_);
       currentServerStatus_ != newStatus) {
     MAF_LOGGER_INFO("Server (", myServerAddress_.get_name(),
@@ -136,19 +153,25 @@ void LocalIPCClient::monitorServerStatus(long long tunedInterval) {
   } else if (tunedInterval < serverMonitorInterval) {
     tunedInterval += 5;
   }
-  serverMonitorTimer_.start(tunedInterval, [tunedInterval, this] {
-    this->monitorServerStatus(tunedInterval);
-  });
+  serverMonitorTimer_.start(
+      tunedInterval, [tunedInterval, weakThis = weakThis()] {
+        if (auto this_ = weakThis.lock()) {
+          this_->monitorServerStatus(tunedInterval);
+        }
+      });
 }
 
 void LocalIPCClient::onBytesCome(srz::Buffer &&buff) {
-  single_threadpool::submit([this, buff = std::move(buff)]() mutable {
-    std::shared_ptr<LocalIPCMessage> csMsg =
-        std::make_shared<LocalIPCMessage>();
-    if (csMsg->fromBytes(std::move(buff))) {
-      onIncomingMessage(csMsg);
-    } else {
-      MAF_LOGGER_ERROR("incoming message is not wellformed");
+  single_threadpool::submit([weakThis = weakThis(),
+                             buff = std::move(buff)]() mutable {
+    if (auto this_ = weakThis.lock()) {
+      std::shared_ptr<LocalIPCMessage> csMsg =
+          std::make_shared<LocalIPCMessage>();
+      if (csMsg->fromBytes(std::move(buff))) {
+        this_->onIncomingMessage(csMsg);
+      } else {
+        MAF_LOGGER_ERROR("incoming message is not wellformed");
+      }
     }
   });
 }
-- 
2.43.0


From 8362c81565dfd0f224bdfcf1d3d455d0d4694375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:33 +0000
Subject: [PATCH 55/76] fix: a client could be told an outdated availability
 while it registered with the server

---
 src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 3273481..8caca1f 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -106,7 +106,9 @@ bool LocalIPCServer::onIncomingMessage(const CSMessagePtr &csMsg) {
       MAF_LOGGER_INFO("[][][]Client registers for service status change: ",
                       csMsg->sourceAddress().dump());
 
-      registedClAddrs_.atomic()->insert(csMsg->sourceAddress());
+      // a change meanwhile must not be told before the status it changed
+      std::lock_guard lockAddrs(registedClAddrs_);
+      registedClAddrs_->insert(csMsg->sourceAddress());
 
       std::lock_guard lock(providers_);
       for (auto &[sid, provider] : *providers_) {
-- 
2.43.0


From 32d14600d45ebd13351d14460a48ff9205caa058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 56/76] fix: registers overtaken by an earlier unregister were
 lost at the server

---
 .../client-server/ServiceProvider.cpp          | 18 ++++++++++++++++--
 .../messaging/client-server/ServiceProvider.h  |  3 +--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 90909d5..50e4fab 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -4,6 +4,7 @@
 #include <maf/messaging/client-server/CSError.h>
 #include <maf/messaging/client-server/ServerIF.h>
 
+#include <algorithm>
 #include <cassert>
 
 #include "Request.h"
@@ -337,11 +338,24 @@ void ServiceProvider::invalidateAndRemoveAllRequests() {
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
   MAF_LOGGER_INFO("Client from ", msg->sourceAddress().get_name(),
                   " registers for property: ", msg->operationID());
-  (*regEntriesMap_.atomic())[msg->sourceAddress()].insert(msg->operationID());
+  std::lock_guard lock(regEntriesMap_);
+  auto &registeredIDs = (*regEntriesMap_)[msg->sourceAddress()];
+  auto [it, inserted] =
+      registeredIDs.try_emplace(msg->operationID(), msg->requestID());
+  if (!inserted) {
+    it->second = std::max(it->second, msg->requestID());
+  }
 }
 
 void ServiceProvider::removeRegisterInfo(const CSMessagePtr &msg) {
-  (*regEntriesMap_.atomic())[msg->sourceAddress()].erase(msg->operationID());
+  std::lock_guard lock(regEntriesMap_);
+  auto &registeredIDs = (*regEntriesMap_)[msg->sourceAddress()];
+  auto it = registeredIDs.find(msg->operationID());
+  // messages sent by several threads might overtake each other, don't undo a
+  // register which was made after this
+  if (it != registeredIDs.end() && it->second < msg->requestID()) {
+    registeredIDs.erase(it);
+  }
 }
 
 void ServiceProvider::removeAllRegisterInfo() {
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index b0f3f40..f7669fb 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -6,7 +6,6 @@
 #include <list>
 #include <map>
 #include <mutex>
-#include <set>
 #include <vector>
 
 #include "TaskSequencer.h"
@@ -30,7 +29,7 @@ class ServiceProvider : public ServiceProviderIF,
   using PropertyMap                               = OpIDMap<PropertyPtr>;
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
-  using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
+  using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::map<OpID, RequestID>>>;
   using AddressList                               = std::vector<Address>;
   using AtomicStatus                              = std::atomic<ActionCallStatus>;
   // clang-format on
-- 
2.43.0


From 7904279770272e9a2a68af2fad95cb36a4952e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 57/76] fix: order addresses strictly: by name, then by port

---
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..9783e91 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return cas_tuple() < other.cas_tuple();
 }
 
 bool Address::valid() const {
-- 
2.43.0


From e9d9ae5c97d0c6b52dbc9cd9b464246ce19ed9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 58/76] fix: order registration ids totally, consistent with
 their equality

---
 include/maf/messaging/client-server/RegID.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RegID.h b/include/maf/messaging/client-server/RegID.h
index af3f385..7fbac52 100644
--- a/include/maf/messaging/client-server/RegID.h
+++ b/include/maf/messaging/client-server/RegID.h
@@ -56,7 +56,8 @@ inline bool operator==(const RegID &r1, const RegID &r2) {
 inline bool operator!=(const RegID &r1, const RegID &r2) { return !(r1 == r2); }
 
 inline bool operator<(const RegID &r1, const RegID &r2) {
-  return (r1.requestID < r2.requestID) && (r1.opID < r2.opID);
+  return (r1.requestID < r2.requestID) ||
+         (r1.requestID == r2.requestID && r1.opID < r2.opID);
 }
 
 }  // namespace messaging
-- 
2.43.0


From c7ad99599e291c7be7d25c2c3b428a461a3cbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 59/76] fix: logging::enable() adds levels instead of disabling
 all others

---
 src/common/maf/logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/logging/Logger.cpp b/src/common/maf/logging/Logger.cpp
index 2aa992c..66528cc 100644
--- a/src/common/maf/logging/Logger.cpp
+++ b/src/common/maf/logging/Logger.cpp
@@ -43,7 +43,7 @@ bool allowed(LogLevel level) {
   return statics().allowedLevels.load(std::memory_order_relaxed) & level;
 }
 
-void enable(LogLevel level) { statics().allowedLevels &= level; }
+void enable(LogLevel level) { statics().allowedLevels |= level; }
 
 void disable(LogLevel level) { statics().allowedLevels &= ~level; }
 
-- 
2.43.0


From 79897cc7a5887da31cdb30c1714c44995fc4ace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:23 +0000
Subject: [PATCH 60/76] fix: requests of different clients with the same id
 were mixed up

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 50e4fab..d462eb1 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -313,7 +313,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // request ids are only unique within one client
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->_csMsg->sourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
-- 
2.43.0


From d848f45ef66067db7c7d308fb87720d979a7791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:00 +0000
Subject: [PATCH 61/76] fix: requests dropped by the executor of their handler
 were never answered

---
 include/maf/messaging/client-server/BasicStub.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/client-server/BasicStub.h b/include/maf/messaging/client-server/BasicStub.h
index feb7203..253ec35 100644
--- a/include/maf/messaging/client-server/BasicStub.h
+++ b/include/maf/messaging/client-server/BasicStub.h
@@ -214,9 +214,14 @@ bool BasicStub<PTrait>::registerRequestHandler(
     auto requestHandler =
         [handlerFunction = std::move(handlerFunction), executor = executor_](
             const std::shared_ptr<RequestIF> &request) mutable {
-          executor->execute([request = request,
+          // A request whose execution is refused or dropped by the executor must
+          // be answered as well
+          using RequestType = Request<RequestOrInput>;
+          auto owner =
+              std::shared_ptr<RequestType>{new RequestType{request}};
+          executor->execute([owner = std::move(owner),
                              callback = std::move(handlerFunction)]() mutable {
-            callback(Request<RequestOrInput>{std::move(request)});
+            callback(std::move(*owner));
           });
         };
 
-- 
2.43.0


From 2048bc44740a83b895e55e28721339486b4cd20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:05 +0000
Subject: [PATCH 62/76] fix: an error as payload of a request or notification
 was taken for data

---
 include/maf/messaging/client-server/ipc/local/ParamTrait.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/maf/messaging/client-server/ipc/local/ParamTrait.h b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
index 90e983a..c7be619 100644
--- a/include/maf/messaging/client-server/ipc/local/ParamTrait.h
+++ b/include/maf/messaging/client-server/ipc/local/ParamTrait.h
@@ -31,6 +31,12 @@ class ParamTrait : public ParamTraitBase {
           ->content();
     }
 
+    // the peer sent something else, e.g. an error
+    if (payload->type() != CSPayloadType::IncomingData) {
+      assign_ptr(status, TranslationStatus::DestSrcMismatch);
+      return {};
+    }
+
     try {
       using PureContentType = std::decay_t<Message>;
       // Warning: avoid using dynamic_cast RTTI
-- 
2.43.0


From 9bda8545872359c80bf370b90fbaacbf9da7ec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 63/76] fix: callbacks were destroyed within the locks of
 requesters, providers and requests

---
 .../maf/messaging/client-server/Request.cpp   |  3 ++-
 .../client-server/ServiceProvider.cpp         | 12 +++++++++-
 .../client-server/ServiceRequester.cpp        | 24 +++++++++++++++----
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index a3f1e7a..9ddfea6 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -88,7 +88,8 @@ void Request::onAborted(AbortRequestCallback abortCallback) {
     if (!_aborted) {
       // there's nothing left to abort once it was responded
       if (_valid) {
-        _abortCallback = std::move(abortCallback);
+        // what the former callback owns might call back to this
+        _abortCallback.swap(abortCallback);
       }
       return;
     }
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index d462eb1..6a00223 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -407,7 +407,17 @@ bool ServiceProvider::registerRequestHandler(
 }
 
 bool ServiceProvider::unregisterRequestHandler(const OpID &opID) {
-  return requestHandlerMap_.atomic()->erase(opID) != 0;
+  // the handler must be destroyed outside of the lock, what it owns might call
+  // back to this
+  RequestHandlerFunction removedHandler;
+  std::lock_guard lock(requestHandlerMap_);
+  auto it = requestHandlerMap_->find(opID);
+  if (it == requestHandlerMap_->end()) {
+    return false;
+  }
+  removedHandler.swap(it->second);
+  requestHandlerMap_->erase(it);
+  return true;
 }
 
 signal_slots::Connection ServiceProvider::registerNotification(
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 8a5e7b6..d9df7cf 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -83,6 +83,9 @@ void ServiceRequester::abortRequest(const RegID &regID,
   );
 
   bool found = false;
+  // must be destroyed outside of the lock, what the callback owns might call
+  // back to this
+  std::list<RegEntry> removedEntries;
 
   {  // create {block} for releasing lock on _requestEntriesMap
     std::lock_guard lock(requestEntriesMap_);
@@ -93,7 +96,8 @@ void ServiceRequester::abortRequest(const RegID &regID,
       for (auto requestEntryIt = listOfRequests.begin();
            requestEntryIt != listOfRequests.end(); ++requestEntryIt) {
         if (requestEntryIt->requestID == regID.requestID) {
-          listOfRequests.erase(requestEntryIt);
+          removedEntries.splice(removedEntries.end(), listOfRequests,
+                                requestEntryIt);
           found = true;
           break;
         }
@@ -138,8 +142,17 @@ void ServiceRequester::registerServiceStatusObserver(
 
 void ServiceRequester::unregisterServiceStatusObserver(
     const ServiceStatusObserverPtr &observer) {
-  serviceStatusObservers_.atomic()->remove_if(
-      [&observer](const auto &obsv) { return obsv == observer; });
+  // must be destroyed outside of the lock, they might call back to this
+  ServiceStatusObservers::DataType removedObservers;
+  std::lock_guard lock(serviceStatusObservers_);
+  for (auto it = serviceStatusObservers_->begin();
+       it != serviceStatusObservers_->end();) {
+    auto itObserver = it++;
+    if (*itObserver == observer) {
+      removedObservers.splice(removedObservers.end(), *serviceStatusObservers_,
+                              itObserver);
+    }
+  }
 }
 
 CSPayloadIFPtr ServiceRequester::sendRequest(const OpID &opID,
@@ -658,13 +671,16 @@ size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
 
 size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
                                         const RegID &regID) {
+  // must be destroyed outside of the lock, what the callback owns might call
+  // back to this
+  std::list<RegEntry> removedEntries;
   std::lock_guard lock(regInfoEntriesMap);
   auto itEntries = regInfoEntriesMap->find(regID.opID);
   if (itEntries != regInfoEntriesMap->end()) {
     auto &entries = itEntries->second;
     for (auto itEntry = std::begin(entries); itEntry != std::end(entries);) {
       if (itEntry->requestID == regID.requestID) {
-        entries.erase(itEntry);
+        removedEntries.splice(removedEntries.end(), entries, itEntry);
         break;
       }
       ++itEntry;
-- 
2.43.0


From 9befa19f2fa815d78c82cc04d0fb64e8e42bb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:28 +0000
Subject: [PATCH 64/76] fix: queues destroyed replaced items within their lock

---
 include/maf/threading/ThreadSafeQueue.h | 28 +++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 779edce..cf576fe 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -63,9 +63,7 @@ class ThreadSafeQueue {
             lock, absTime, [this] { return !queue_->empty() || isClosed(); })) {
       return false;
     } else if (!isClosed()) {
-      value = std::move(queue_->front());
-      queue_->pop();
-      return true;
+      return popTo(value, lock);
     }
     return false;
   }
@@ -78,9 +76,7 @@ class ThreadSafeQueue {
         })) {
       return false;
     } else if (!isClosed()) {
-      value = std::move(queue_->front());
-      queue_->pop();
-      return true;
+      return popTo(value, lock);
     }
     return false;
   }
@@ -94,19 +90,15 @@ class ThreadSafeQueue {
     queueNotEmpty_.wait(lock,
                         [this] { return !queue_->empty() || isClosed(); });
     if (!isClosed()) {
-      value = std::move(queue_->front());
-      queue_->pop();
-      return true;
+      return popTo(value, lock);
     }
     return false;
   }
 
   bool tryPop(value_type &value) {
-    std::lock_guard lock(queue_);
+    std::unique_lock lock(queue_);
     if (!queue_->empty() && !isClosed()) {
-      value = queue_->front();
-      queue_->pop();
-      return true;
+      return popTo(value, lock);
     }
     return false;
   }
@@ -145,6 +137,16 @@ class ThreadSafeQueue {
   size_t size() { return queue_.atomic()->size(); }
 
  private:
+  template <class Lock>
+  bool popTo(value_type &value, Lock &lock) {
+    value_type item = std::move(queue_->front());
+    queue_->pop();
+    // the destructor of the replaced value might access this queue again
+    lock.unlock();
+    value = std::move(item);
+    return true;
+  }
+
   Lockable<QueueClass> queue_;
   std::condition_variable_any queueNotEmpty_;
   std::atomic_bool closed_;
-- 
2.43.0


From 5f1b6aae02bc4d33d445119e92ccda9310f291fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:28 +0000
Subject: [PATCH 65/76] fix: slots which disconnect others while they are
 destroyed broke the list of slots

---
 include/maf/utils/SignalSlots.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 08c2773..8877ac4 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -155,11 +155,13 @@ class MultiSlotKeeper {
 
   void clear() {
     count_ = 0;
+    // what the slots own might connect or disconnect while it is destroyed
+    SlotsType cleared;
     if (!notifying_) {
-      slots_.clear();
+      cleared.swap(slots_);
     } else {
       for (auto& slot : slots_) {
-        slot.reset();
+        cleared.push_back(move(slot));
       }
     }
   }
-- 
2.43.0


From e3f3225af6714e95f020c6ae98b55e9a1b5c83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:28 +0000
Subject: [PATCH 66/76] fix: timers whose callbacks own other timers broke the
 list of timers at the end of their thread

---
 src/common/maf/messaging/Timer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 0ffe310..a0e2093 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -66,6 +66,7 @@ struct TimerMgr {
   Heap records_;
   State state_ = State::NoTimer;
 
+  ~TimerMgr() { cleanup(); }
   void cleanup();
   void refresh();
   void checkAllTimers();
@@ -166,11 +167,13 @@ void Timer::timeoutAfter(milliseconds milliseconds,
 }
 
 void TimerMgr::cleanup() {
-  for (auto& record : records_) {
+  // what the callbacks own might stop other timers while it is destroyed
+  Heap records;
+  records.swap(records_);
+  state_ = State::NoTimer;
+  for (auto& record : records) {
     record->running = false;
   }
-  records_.clear();
-  state_ = State::NoTimer;
 }
 
 void TimerMgr::refresh() { make_heap(begin(), end(), timerGreater); }
-- 
2.43.0


From fb2e8e830862a7dacb92af5068f008ad9817fc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:45 +0000
Subject: [PATCH 67/76] fix: a sync timer whose executor waits for the callback
 could not be stopped by it

---
 src/common/maf/messaging/SyncTimer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index e24eb34..e6c6f3f 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -67,7 +67,14 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
       }
 
       if (executor) {
-        executor->execute(d_->cyclic ? callback : std::move(callback));
+        auto toExecute = d_->cyclic ? callback : std::move(callback);
+        // a callback that is waited for might stop this timer on its thread
+        lock.unlock();
+        executor->execute(std::move(toExecute));
+        lock.lock();
+        if (stopped()) {
+          break;
+        }
       } else {
         callback();
       }
-- 
2.43.0


From 6d39795138973a5ffcace2a5bcafe0bf3aa8755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 68/76] fix: executors of a stopped processor claimed to have
 accepted what they dropped

---
 src/common/maf/messaging/Processor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1222983..328b82f 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -41,8 +41,7 @@ class AsyncExecutor : public util::ExecutorIF {
   AsyncExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->executeAsync(std::move(callback));
-      return true;
+      return comp->executeAsync(std::move(callback));
     }
     return false;
   }
@@ -55,8 +54,7 @@ class DefaultExecutor : public util::ExecutorIF {
   DefaultExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->execute(std::move(callback));
-      return true;
+      return comp->execute(std::move(callback));
     }
     return false;
   }
-- 
2.43.0


From c8d58bbebb4a6a27388b40efa891339a414bcbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 69/76] fix: blocking executions on a stopped processor waited
 for an invalid future

---
 src/common/maf/messaging/Processor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 328b82f..6f4c1b8 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -67,8 +67,11 @@ class WaitableExecutor : public util::ExecutorIF {
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
       try {
-        comp->waitableExecute(callback).wait();
-        return true;
+        // not valid when the processor refused it
+        if (auto done = comp->waitableExecute(callback); done.valid()) {
+          done.wait();
+          return true;
+        }
       } catch (const std::future_error &e) {
         MAF_LOGGER_ERROR("Cauth exception when execute callback: ", e.what());
         return false;
@@ -345,7 +348,10 @@ Execution Processor::willAsyncExecuteOnThis(Execution exec) {
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(exec).wait();
+      // not valid when the processor refused it
+      if (auto done = processor->waitableExecute(exec); done.valid()) {
+        done.wait();
+      }
     }
   };
 }
-- 
2.43.0


From 9a776c768a7e122c623aff14dfc9b1ff15b785a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 70/76] fix: waitableExecute returned an uninitialized result
 when the execution threw or was dropped

---
 include/maf/messaging/Processor.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/Processor.h b/include/maf/messaging/Processor.h
index 96966ed..54b2361 100644
--- a/include/maf/messaging/Processor.h
+++ b/include/maf/messaging/Processor.h
@@ -88,8 +88,9 @@ class Processor final : pattern::Unasignable,
       std::enable_if_t<!std::is_same_v<std::invoke_result_t<Callable>, void>,
                        bool> = true>
   auto waitableExecute(Callable &&cb) -> std::invoke_result_t<Callable> {
-    std::invoke_result_t<Callable> ret;
-    this->waitableExecute([&] { ret = cb(); }).wait();
+    std::invoke_result_t<Callable> ret{};
+    // throws when there is no result
+    this->waitableExecute([&] { ret = cb(); }).get();
     return ret;
   }
 
-- 
2.43.0


From 2df1613613e6c554283f5335fc635c44ddc4b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:07 +0000
Subject: [PATCH 71/76] fix: assigning to a running AsyncProcessor blocked
 forever

---
 include/maf/messaging/ProcessorEx.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/ProcessorEx.h b/include/maf/messaging/ProcessorEx.h
index 40cf5c5..8d6e245 100644
--- a/include/maf/messaging/ProcessorEx.h
+++ b/include/maf/messaging/ProcessorEx.h
@@ -44,7 +44,15 @@ class AsyncProcessor : public ProcessorExBase {
   using Timeout = std::chrono::milliseconds;
   using ProcessorExBase::ProcessorExBase;
   AsyncProcessor(AsyncProcessor &&) = default;
-  AsyncProcessor &operator=(AsyncProcessor &&) = default;
+  AsyncProcessor &operator=(AsyncProcessor &&other) {
+    if (this != &other) {
+      // nobody could stop the thread afterwards, but its end is waited for
+      stopAndWait();
+      ProcessorExBase::operator=(std::move(other));
+      stopSignal_ = std::move(other.stopSignal_);
+    }
+    return *this;
+  }
   ~AsyncProcessor() { stopAndWait(); }
 
   static StoppedSignal launchProcessor(const ProcessorInstance &comp,
-- 
2.43.0


From 2692197b3e714be3b7ac1e1a0893d3e0f922c9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:14 +0000
Subject: [PATCH 72/76] fix: this_processor was still set after the init
 function of a run threw

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 6f4c1b8..a57f437 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -182,15 +182,18 @@ const ProcessorID &Processor::id() const noexcept { return d_->id; }
 
 void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
   auto justSet = this_processor::testAndSetThreadLocalInstance(this);
+  // also when threadInit throws
+  CallOnExit unset = [justSet] {
+    this_processor::clearTLInstanceIfSet(justSet);
+  };
   if (threadInit) {
     threadInit();
   }
 
-  CallOnExit deinit = [justSet, threadDeinit = std::move(threadDeinit)] {
+  CallOnExit deinit = [threadDeinit = std::move(threadDeinit)] {
     if (threadDeinit) {
       threadDeinit();
     }
-    this_processor::clearTLInstanceIfSet(justSet);
   };
 
   ExecutionUPtr exc;
-- 
2.43.0


From 5089f618c7b3a8cf16058715980e04c7851f9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:14 +0000
Subject: [PATCH 73/76] fix: waitable calls ran on the wrong thread when two
 processors had the same id

---
 src/common/maf/messaging/Processor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index a57f437..b343ebe 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -272,7 +272,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::id() != id()) {
+      if (this_processor::instance_ != this) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
         (*msgHandlingTask)();
@@ -311,7 +311,7 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::id() != id()) {
+    if (this_processor::instance_ != this) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
       (*task)();
-- 
2.43.0


From e0b11a72bf46f78a6af20c026130cd54b9b7419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:24 +0000
Subject: [PATCH 74/76] fix: the text of a null pointer never ended for types
 which refer to themselves, null C strings crashed

---
 include/maf/utils/serialization/Dumper.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/maf/utils/serialization/Dumper.h b/include/maf/utils/serialization/Dumper.h
index c1e4a57..d3bde1d 100644
--- a/include/maf/utils/serialization/Dumper.h
+++ b/include/maf/utils/serialization/Dumper.h
@@ -73,14 +73,13 @@ struct DumperSFINAE<
     std::enable_if_t<PointerDumpable<PointerType>::value, void>> {
   static void write(OStream &ds, const PointerType &value,
                     int indentLevel) noexcept {
-    using NormalTypeOfPointerType =
-        std::remove_const_t<std::remove_pointer_t<PointerType>>;
     using namespace maf::srz;
 
+    // the pointee might be of a type which refers to itself
     if (value) {
       dump(ds, *value, indentLevel);
     } else {
-      dump(ds, NormalTypeOfPointerType(), indentLevel);
+      ds << "null";
     }
   }
 };
@@ -256,12 +255,12 @@ void _dump(OStream &ds, const std::wstring & /*val*/, int indentLevel) {
 
 template <class OStream>
 void _dump(OStream &ds, const char *val, int indentLevel) {
-  _dumpString(ds, val, indentLevel);
+  _dumpString(ds, val ? val : "null", indentLevel);
 }
 
 template <class OStream>
 void _dump(OStream &ds, char *val, int indentLevel) {
-  _dumpString(ds, val, indentLevel);
+  _dumpString(ds, val ? val : "null", indentLevel);
 }
 
 template <class OStream, typename... _Args>
-- 
2.43.0


From 3b91bffa3ee0ac8e45d455a1c8fa973ed5cb1e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:23 +0000
Subject: [PATCH 75/76] fix: reading numbers and strings in json arrays and
 maps did not compile

---
 include/maf/utils/serialization/3rdparty/Json11Trait.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/maf/utils/serialization/3rdparty/Json11Trait.h b/include/maf/utils/serialization/3rdparty/Json11Trait.h
index ca6e204..16364c7 100644
--- a/include/maf/utils/serialization/3rdparty/Json11Trait.h
+++ b/include/maf/utils/serialization/3rdparty/Json11Trait.h
@@ -30,11 +30,14 @@ namespace srz {
     7. std::map<string, one_of_above_types>)"
 
 using Json = json11::Json;
-template <typename T>
+template <typename T, typename = void>
 struct is_json11_convertible_type
     : public std::integral_constant<bool, std::is_same_v<std::string, T> ||
-                                              nstl::is_number_type_v<T> ||
-                                              T::jsonizable> {};
+                                              nstl::is_number_type_v<T>> {};
+
+template <typename T>
+struct is_json11_convertible_type<T, std::enable_if_t<T::jsonizable>>
+    : public std::true_type {};
 
 template <typename T>
 struct is_json11_convertible_type<std::vector<T>>
-- 
2.43.0


From bad7181017fc9e83373271f7ee3e9162ebf780f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:50 +0000
Subject: [PATCH 76/76] fix: chains could not be continued behind a function
 which returns nothing

---
 include/maf/utils/ProcessorChain.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/ProcessorChain.h b/include/maf/utils/ProcessorChain.h
index 56d25d3..63fa2c1 100644
--- a/include/maf/utils/ProcessorChain.h
+++ b/include/maf/utils/ProcessorChain.h
@@ -120,7 +120,8 @@ class ProcessorChainBase_<void, Input_> : public ProcessorBase_<void, Input_> {
     using NextOutput = decltype(nextCb());
     return ProcessorChainBase_<NextOutput, Input_>(
         [cb{move(this->cb_)}, nextCb{move(nextCb)}](Input_ in) -> NextOutput {
-          return nextCb(cb(move(in)));
+          cb(move(in));
+          return nextCb();
         });
   }
 };
-- 
2.43.0

