From 9e090393a3dfe24c4aa886372d2a6eef04d437c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 01/16] fix: read the place's properties under its mutex

Place::placeProperties read m_numberOfTokens without m_mutex, racing with the
event loop thread that fires transitions.
---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..fb8ef3b 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -160,6 +160,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From de937d671b25efb2e63f73316fca8d1564d0622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 02/16] fix: do not lock the transition's mutex recursively

Transition::getTransitionProperties called locking getters of the same
transition while already holding m_mutex. Locking a std::shared_mutex twice on
one thread is undefined and deadlocks when a writer queues in between.
---
 PTN_Engine/Transition.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..f4f56e0 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -199,16 +199,16 @@ TransitionProperties Transition::getTransitionProperties() const
 		for (const auto &arc : arcs)
 		{
 			auto spPlace = lockWeakPtr(arc.place);
-			arcsProperties.emplace_back(arc.weight, spPlace->getName(), getName(), type);
+			arcsProperties.emplace_back(arc.weight, spPlace->getName(), m_name, type);
 		}
 		return arcsProperties;
 	};
 	transitionProperties.additionalConditions = getAdditionalConditions();
 
-	transitionProperties.activationArcs = getProperties(getActivationArcs(), ArcProperties::Type::ACTIVATION);
-	transitionProperties.destinationArcs = getProperties(getDestinationArcs(), ArcProperties::Type::DESTINATION);
-	transitionProperties.inhibitorArcs = getProperties(getInhibitorArcs(), ArcProperties::Type::INHIBITOR);
-	transitionProperties.name = getName();
+	transitionProperties.activationArcs = getProperties(m_activationArcs, ArcProperties::Type::ACTIVATION);
+	transitionProperties.destinationArcs = getProperties(m_destinationArcs, ArcProperties::Type::DESTINATION);
+	transitionProperties.inhibitorArcs = getProperties(m_inhibitorArcs, ArcProperties::Type::INHIBITOR);
+	transitionProperties.name = m_name;
 	transitionProperties.requireNoActionsInExecution = m_requireNoActionsInExecution;
 
 	return transitionProperties;
-- 
2.43.0


From ccdac7793ceff7703e19aeba43986b32695b2254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 03/16] fix: do not sleep while holding the sleep duration
 mutex

The idle event loop held m_sleepDurationMutex for the whole wait, so
setSleepDuration (and, through the engine lock, every other call) was stuck
until the watchdog timer expired.
---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..cd91388 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -95,9 +95,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const SleepDuration sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this] { return m_ptnEngine.getNewInputReceived(); });
 		}
 	}
-- 
2.43.0


From 0e1f1d61597ffc79c10c87b720b25010c84e2bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 04/16] fix: wake up the idle event loop when it is asked to
 stop

stop() only set the stop token: an idle event loop noticed it after the whole
sleep duration, while stop() blocked the engine.
---
 PTN_Engine/EventLoop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index cd91388..1dafb4d 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -47,6 +47,7 @@ void EventLoop::stop() noexcept
 	if (m_eventLoopThread.get_stop_token().stop_possible())
 	{
 		m_eventLoopThread.request_stop();
+		notifyNewEvent();
 		m_barrier->arrive_and_wait();
 	}
 }
@@ -98,7 +99,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 			const SleepDuration sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
-									 [this] { return m_ptnEngine.getNewInputReceived(); });
+									 [this, &stopToken]
+									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });
 		}
 	}
 	m_eventLoopThreadRunning = false;
-- 
2.43.0


From 4205a3d244d8eaeebf581308007402964260351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 05/16] fix: join the event loop thread when stopping

stop() met the thread on a barrier that the next start() destroyed while the
old thread could still be leaving it (heap use after free).
---
 PTN_Engine/EventLoop.cpp | 7 ++++---
 PTN_Engine/EventLoop.h   | 4 ----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 1dafb4d..6433f4c 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -48,7 +48,10 @@ void EventLoop::stop() noexcept
 	{
 		m_eventLoopThread.request_stop();
 		notifyNewEvent();
-		m_barrier->arrive_and_wait();
+		if (m_eventLoopThread.get_id() != this_thread::get_id())
+		{
+			m_eventLoopThread.join();
+		}
 	}
 }
 
@@ -65,7 +68,6 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
-		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
 	}
@@ -104,6 +106,5 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 		}
 	}
 	m_eventLoopThreadRunning = false;
-	m_barrier->arrive_and_wait();
 }
 } // namespace ptne
diff --git a/PTN_Engine/EventLoop.h b/PTN_Engine/EventLoop.h
index e4db3f6..119051a 100755
--- a/PTN_Engine/EventLoop.h
+++ b/PTN_Engine/EventLoop.h
@@ -19,7 +19,6 @@
 #pragma once
 
 #include <atomic>
-#include <barrier>
 #include <chrono>
 #include <condition_variable>
 #include <mutex>
@@ -99,9 +98,6 @@ private:
 	//! Reference to the petri net engine.
 	IPTN_EngineEL &m_ptnEngine;
 
-	//! Barrier to synchronize the event loop thread.
-	std::unique_ptr<std::barrier<>> m_barrier = nullptr;
-
 	//! Event loop thread.
 	std::jthread m_eventLoopThread;
 
-- 
2.43.0


From 92ea37cf83a3b2ee58ea74b671a39bc345b9050e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:42 +0000
Subject: [PATCH 06/16] fix: do not report a running event loop when its thread
 could not start

---
 PTN_Engine/EventLoop.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 6433f4c..e65bd68 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -69,7 +69,15 @@ void EventLoop::start(const bool log, ostream &o)
 	else
 	{
 		m_eventLoopThreadRunning = true;
-		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		try
+		{
+			m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		}
+		catch (const system_error &)
+		{
+			m_eventLoopThreadRunning = false;
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From d197e4d9417d5d822546d5f896574bedb7970442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 07/16] fix: always unblock the activation places of an
 executed transition

An exception (e.g. from an additional condition) left the activation places
blocked for ever. And a place that is both activation and destination was still
blocked by the transition that was entering it, hanging the calling thread.
---
 PTN_Engine/Transition.cpp | 30 +++++++++++++++++-------------
 PTN_Engine/Transition.h   |  3 ---
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index f4f56e0..34dd600 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -82,20 +82,30 @@ bool Transition::execute()
 	unique_lock guard(m_mutex);
 	bool result = false;
 
-	blockStartingOnEnterActions(true);
-
-	if (!isActive())
+	try
 	{
-		result = false;
+		blockStartingOnEnterActions(true);
+
+		if (isActive())
+		{
+			exitActivationPlaces();
+			result = true;
+		}
 	}
-	else
+	catch (...)
 	{
-		performTransit();
-		result = true;
+		blockStartingOnEnterActions(false);
+		throw;
 	}
 
+	// Unblock before entering the destination places: one of them may also be an activation place.
 	blockStartingOnEnterActions(false);
 
+	if (result)
+	{
+		enterDestinationPlaces();
+	}
+
 	return result;
 }
 
@@ -363,12 +373,6 @@ bool Transition::noActionsInExecution() const
 	return true;
 }
 
-void Transition::performTransit() const
-{
-	exitActivationPlaces();
-	enterDestinationPlaces();
-}
-
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..df1d5c2 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -156,9 +156,6 @@ private:
 	//!
 	bool noActionsInExecution() const;
 
-	//! Moves the tokens from the inputs to the outputs.
-	void performTransit() const;
-
 	std::vector<Arc> m_activationArcs;
 
 	//! Pointers to the controller's functions that evaluate if the transition can be fired.
-- 
2.43.0


From ee6fa0e103e1e29922679d12622eb27005a18685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 08/16] fix: do not wait for a blocked place while holding its
 mutex

Place::enterPlace slept on m_blockStartingOnEnterActions with m_mutex locked,
while the transition that set the flag needs that mutex to get to clear it.
---
 PTN_Engine/Place.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index fb8ef3b..8ae246d 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -61,17 +61,20 @@ string Place::getName() const
 void Place::enterPlace(const size_t tokens)
 {
 	unique_lock guard(m_mutex);
-	increaseNumberOfTokens(tokens);
-	if (m_onEnterAction == nullptr)
-	{
-		return;
-	}
-	while (m_blockStartingOnEnterActions)
+	while (m_onEnterAction != nullptr && m_blockStartingOnEnterActions)
 	{
 		// TO DO make this wait period configurable
 		// add a max wait time after which an exception
 		// is thrown.
+		// The transition that blocks the place needs to lock it in order to finish.
+		guard.unlock();
 		this_thread::sleep_for(100ms);
+		guard.lock();
+	}
+	increaseNumberOfTokens(tokens);
+	if (m_onEnterAction == nullptr)
+	{
+		return;
 	}
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
-- 
2.43.0


From 5248d286e30039160415dec068a30ddc79fd53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 09/16] fix: let actions in execution outlive their place

Queued and detached actions referred to the std::function and the counter of
the place that triggered them: destroying the engine or clearing the net while
one was pending or running was a use after free.
---
 PTN_Engine/Executor/DetachedExecutor.cpp     | 9 +++++----
 PTN_Engine/Executor/DetachedExecutor.h       | 2 +-
 PTN_Engine/Executor/IActionsExecutor.h       | 4 +++-
 PTN_Engine/Executor/JobQueueExecutor.cpp     | 9 +++++----
 PTN_Engine/Executor/JobQueueExecutor.h       | 2 +-
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 7 ++++---
 PTN_Engine/Executor/SingleThreadExecutor.h   | 2 +-
 PTN_Engine/Place.cpp                         | 2 +-
 PTN_Engine/Place.h                           | 8 ++++----
 9 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index c7ff828..970f345 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -25,13 +25,14 @@ namespace ptne
 
 using namespace std;
 
-void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void DetachedExecutor::executeAction(const ActionFunction &action,
+                                     const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto job = [&actionsInExecution, &action]()
+	++*actionsInExecution;
+	auto job = [actionsInExecution, action]()
 	{
 		action();
-		--actionsInExecution;
+		--*actionsInExecution;
 	};
 	auto t = thread(job);
 	t.detach();
diff --git a/PTN_Engine/Executor/DetachedExecutor.h b/PTN_Engine/Executor/DetachedExecutor.h
index 7316589..8dd3faf 100644
--- a/PTN_Engine/Executor/DetachedExecutor.h
+++ b/PTN_Engine/Executor/DetachedExecutor.h
@@ -26,7 +26,7 @@ namespace ptne
 class DetachedExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const ActionFunction &action, const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/IActionsExecutor.h b/PTN_Engine/Executor/IActionsExecutor.h
index 362157e..840da70 100644
--- a/PTN_Engine/Executor/IActionsExecutor.h
+++ b/PTN_Engine/Executor/IActionsExecutor.h
@@ -19,6 +19,8 @@
 #pragma once
 
 #include "PTN_Engine/PTN_Engine.h"
+#include <atomic>
+#include <memory>
 
 namespace ptne
 {
@@ -26,7 +28,7 @@ class IActionsExecutor
 {
 public:
 	virtual ~IActionsExecutor() = default;
-	virtual void executeAction(const ActionFunction &action, std::atomic<size_t> &counter) = 0;
+	virtual void executeAction(const ActionFunction &action, const std::shared_ptr<std::atomic<size_t>> &counter) = 0;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 51ddaec..95bec18 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -24,13 +24,14 @@ namespace ptne
 
 using namespace std;
 
-void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void JobQueueExecutor::executeAction(const ActionFunction &action,
+                                     const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto f = [&actionsInExecution, &action]()
+	++*actionsInExecution;
+	auto f = [actionsInExecution, action]()
 	{
 		action();
-		--actionsInExecution;
+		--*actionsInExecution;
 	};
 	m_jobQueue.addJob(f);
 }
diff --git a/PTN_Engine/Executor/JobQueueExecutor.h b/PTN_Engine/Executor/JobQueueExecutor.h
index 36b451c..6855f5d 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.h
+++ b/PTN_Engine/Executor/JobQueueExecutor.h
@@ -27,7 +27,7 @@ namespace ptne
 class JobQueueExecutor : public IActionsExecutor
 {
 public:
-	void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+	void executeAction(const ActionFunction &action, const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 
 private:
 	//! Job queue to dispatch actions.
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 09e3d7d..7618a69 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -24,11 +24,12 @@ namespace ptne
 
 using namespace std;
 
-void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void SingleThreadExecutor::executeAction(const ActionFunction &action,
+                                         const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
+	++*actionsInExecution;
 	action();
-	--actionsInExecution;
+	--*actionsInExecution;
 }
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.h b/PTN_Engine/Executor/SingleThreadExecutor.h
index 8f2448e..9e53c5c 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.h
+++ b/PTN_Engine/Executor/SingleThreadExecutor.h
@@ -26,7 +26,7 @@ namespace ptne
 class SingleThreadExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const ActionFunction &action, const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 8ae246d..f90b28a 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -153,7 +153,7 @@ string Place::getOnExitActionName() const
 
 bool Place::isOnEnterActionInExecution() const
 {
-	return m_onEnterActionsInExecution > 0;
+	return *m_onEnterActionsInExecution > 0;
 }
 
 void Place::blockStartingOnEnterActions(const bool value)
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index b07186a..44a025e 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -152,8 +152,8 @@ private:
 	//! A label for the on enter action.
 	std::string m_onEnterActionName;
 
-	//! Counter of on enter functions being executed.
-	std::atomic<size_t> m_onEnterActionsInExecution = 0;
+	//! Counter of on enter functions being executed, shared with those functions.
+	const std::shared_ptr<std::atomic<size_t>> m_onEnterActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Function to be called when a token leaves the place.
 	const ActionFunction m_onExitAction = nullptr;
@@ -161,8 +161,8 @@ private:
 	//! A label for the on exite action.
 	std::string m_onExitActionName;
 
-	//! Counter of on exit functions being executed.
-	std::atomic<size_t> m_onExitActionsInExecution = 0;
+	//! Counter of on exit functions being executed, shared with those functions.
+	const std::shared_ptr<std::atomic<size_t>> m_onExitActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Actions executor.
 	std::weak_ptr<IActionsExecutor> m_actionsExecutor;
-- 
2.43.0


From 6f87f94d6cd47ead92bbfa5a45661fe9855631e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 10/16] fix: do not leak the count of actions in execution

The counter stayed incremented when an action threw, when the thread to run it
could not be created and when a queued action was dropped, so transitions with
requireNoActionsInExecution never fired again.
---
 PTN_Engine/Executor/ActionInExecution.h      | 53 ++++++++++++++++++++
 PTN_Engine/Executor/DetachedExecutor.cpp     |  5 +-
 PTN_Engine/Executor/JobQueueExecutor.cpp     |  5 +-
 PTN_Engine/Executor/SingleThreadExecutor.cpp |  4 +-
 4 files changed, 59 insertions(+), 8 deletions(-)
 create mode 100644 PTN_Engine/Executor/ActionInExecution.h

diff --git a/PTN_Engine/Executor/ActionInExecution.h b/PTN_Engine/Executor/ActionInExecution.h
new file mode 100644
index 0000000..6b715f9
--- /dev/null
+++ b/PTN_Engine/Executor/ActionInExecution.h
@@ -0,0 +1,53 @@
+/*
+ * This file is part of PTN Engine
+ *
+ * Copyright (c) 2024 Eduardo Valgôde
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+#pragma once
+
+#include <atomic>
+#include <memory>
+
+namespace ptne
+{
+
+//!
+//! \brief Counts an action as being in execution for as long as the object exists.
+//!
+class ActionInExecution final
+{
+public:
+	explicit ActionInExecution(const std::shared_ptr<std::atomic<size_t>> &actionsInExecution)
+	: m_actionsInExecution(actionsInExecution)
+	{
+		++*m_actionsInExecution;
+	}
+
+	~ActionInExecution()
+	{
+		--*m_actionsInExecution;
+	}
+
+	ActionInExecution(const ActionInExecution &) = delete;
+	ActionInExecution(ActionInExecution &&) = delete;
+	ActionInExecution &operator=(const ActionInExecution &) = delete;
+	ActionInExecution &operator=(ActionInExecution &&) = delete;
+
+private:
+	std::shared_ptr<std::atomic<size_t>> m_actionsInExecution;
+};
+
+} // namespace ptne
diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index 970f345..287c741 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -17,6 +17,7 @@
  */
 
 #include "PTN_Engine/Executor/DetachedExecutor.h"
+#include "PTN_Engine/Executor/ActionInExecution.h"
 #include <atomic>
 #include <thread>
 
@@ -28,11 +29,9 @@ using namespace std;
 void DetachedExecutor::executeAction(const ActionFunction &action,
                                      const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++*actionsInExecution;
-	auto job = [actionsInExecution, action]()
+	auto job = [actionInExecution = make_shared<ActionInExecution>(actionsInExecution), action]()
 	{
 		action();
-		--*actionsInExecution;
 	};
 	auto t = thread(job);
 	t.detach();
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 95bec18..59693b2 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -17,6 +17,7 @@
  */
 
 #include "PTN_Engine/Executor/JobQueueExecutor.h"
+#include "PTN_Engine/Executor/ActionInExecution.h"
 #include <atomic>
 
 namespace ptne
@@ -27,11 +28,9 @@ using namespace std;
 void JobQueueExecutor::executeAction(const ActionFunction &action,
                                      const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++*actionsInExecution;
-	auto f = [actionsInExecution, action]()
+	auto f = [actionInExecution = make_shared<ActionInExecution>(actionsInExecution), action]()
 	{
 		action();
-		--*actionsInExecution;
 	};
 	m_jobQueue.addJob(f);
 }
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 7618a69..9048e97 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -17,6 +17,7 @@
  */
 
 #include "PTN_Engine/Executor/SingleThreadExecutor.h"
+#include "PTN_Engine/Executor/ActionInExecution.h"
 #include <atomic>
 
 namespace ptne
@@ -27,9 +28,8 @@ using namespace std;
 void SingleThreadExecutor::executeAction(const ActionFunction &action,
                                          const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++*actionsInExecution;
+	const ActionInExecution actionInExecution(actionsInExecution);
 	action();
-	--*actionsInExecution;
 }
 
 } // namespace ptne
-- 
2.43.0


From 8bc0ccc6f8d7f03267bab20749bf369e50d38a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 11/16] fix: reject destination arcs with weight 0 in addArc

The constructor rejects them, addArc did not: firing the transition consumed the
activation tokens and then threw NullTokensException.
---
 PTN_Engine/Transition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 34dd600..0491a85 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -241,6 +241,12 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	};
 
 	using enum ArcProperties::Type;
+	// Entering a place with no tokens is an error: such an arc would fail in the middle of firing.
+	if (weight == 0 && (type == BIDIRECTIONAL || type == DESTINATION))
+	{
+		throw ZeroValueWeightException();
+	}
+
 	switch (type)
 	{
 	default:
-- 
2.43.0


From 34acedb3a1a2d082d39903618f1bb50a4a9ef624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 12/16] fix: add and remove bidirectional arcs completely or
 not at all

When only the destination half was rejected, the activation half had already
been added or removed.
---
 PTN_Engine/Transition.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 0491a85..10d0ed9 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -228,7 +228,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
-	auto addArcTo = [&place, weight](auto &placesContainer)
+	auto checkNoArcIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
@@ -237,6 +237,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		{
 			throw PTN_Exception("Arc already exists");
 		}
+	};
+
+	auto addArcTo = [&place, weight, &checkNoArcIn](auto &placesContainer)
+	{
+		checkNoArcIn(placesContainer);
 		placesContainer.push_back({ place, weight });
 	};
 
@@ -260,6 +265,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	}
 	case BIDIRECTIONAL:
 	{
+		checkNoArcIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
 		addArcTo(m_destinationArcs);
 		break;
@@ -281,22 +287,22 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 {
 	unique_lock guard(m_mutex);
 
-	auto removePlaceFrom = [&place](auto &placesContainer)
+	auto findPlaceIn = [&place](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
 
 		auto it = ranges::find_if(placesContainer, sameNameAs);
-		if (it != placesContainer.cend())
-		{
-			placesContainer.erase(it);
-		}
-		else
+		if (it == placesContainer.cend())
 		{
 			throw PTN_Exception("Cannot remove palce " + place->getName());
 		}
+		return it;
 	};
 
+	auto removePlaceFrom = [&findPlaceIn](auto &placesContainer)
+	{ placesContainer.erase(findPlaceIn(placesContainer)); };
+
 	using enum ArcProperties::Type;
 	switch (type)
 	{
@@ -311,6 +317,7 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
+		findPlaceIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
 		removePlaceFrom(m_destinationArcs);
 		break;
-- 
2.43.0


From c47bc763337bd870569dbd636b9d7d8f71f81a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 13/16] fix: start every XML export from an empty document

A second export with the same exporter wrote a second root element after the
net of the first one, which is the one that importing the file then found.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..afd48ff 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -31,6 +31,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
-- 
2.43.0


From f75bbb994171f5779255b202da10e122e6afcd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 14/16] fix: report that an exported file could not be written

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index afd48ff..7010a85 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -101,7 +102,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not save the file " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From fa673ee4ffc710ef1c821b45ec996d153dedc6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 15/16] fix: import exactly the numbers that are in the XML
 file

atol changed token counts and weights above LONG_MAX and, like from_chars with
its end pointer ignored, accepted values that are not numbers.
---
 .../XML/src/XML/XML_FileImporter.cpp          | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..409fbad 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -34,6 +34,19 @@ string getAttributeValue(const xml_node &node, const string &attrName)
 	return node.attribute(attrName.c_str()).value();
 }
 
+size_t toNumber(const string &str)
+{
+	size_t result{};
+	auto [ptr, ec] = from_chars(str.data(), str.data() + str.size(), result);
+
+	if (ec != errc() || ptr != str.data() + str.size())
+	{
+		throw PTN_Exception("Could not convert from string to int");
+	}
+
+	return result;
+}
+
 vector<string> collectTransitionAttributes(const xml_node &transition, const string &attribute)
 {
 	vector<string> activationConditions;
@@ -54,7 +67,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = toNumber(weightStr);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -90,17 +103,7 @@ bool getNodeValue(const string &nodeName, const xml_node &xmlNode)
 template <>
 size_t getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-
-	size_t result{};
-	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
-
-	if (ec != errc())
-	{
-		throw PTN_Exception("Could not convert from string to int");
-	}
-
-	return result;
+	return toNumber(xmlNode.child(nodeName.c_str()).attribute("value").value());
 }
 
 } // namespace
@@ -138,7 +141,7 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = toNumber(numberOfTokensStr);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From 91b6fad55101a79a9e5eb0c003fdb6d13fff97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:08 +0000
Subject: [PATCH 16/16] fix: do not wait for a running action while holding the
 engine's mutex

Changing the actions thread option destroyed the replaced job queue, joining its
thread, with the engine locked: a deadlock when the action being executed calls
the engine.
---
 PTN_Engine/PTN_EngineImp.cpp      | 8 ++++++--
 PTN_Engine/PTN_EngineImp.h        | 4 +++-
 PTN_Engine/PTN_EngineImpProxy.cpp | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index f4429b1..a848190 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -116,7 +116,8 @@ void PTN_EngineImp::incrementInputPlace(const string &place)
 	m_eventLoop.notifyNewEvent();
 }
 
-void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
+shared_ptr<IActionsExecutor>
+PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
 {
 	if (isEventLoopRunning())
 	{
@@ -127,13 +128,16 @@ void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTI
 
 	if (m_actionsThreadOption == actionsThreadOption)
 	{
-		return;
+		return nullptr;
 	}
 
+	shared_ptr<IActionsExecutor> replacedActionsExecutor = m_actionsExecutor;
 	m_actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
 	m_actionsThreadOption = actionsThreadOption;
 
 	m_places.setActionsExecutor(m_actionsExecutor);
+
+	return replacedActionsExecutor;
 }
 
 PTN_Engine::ACTIONS_THREAD_OPTION PTN_EngineImp::getActionsThreadOption() const
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 143a4b9..a2859af 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -137,7 +137,9 @@ public:
 	void removeArc(const ArcProperties &arcProperties) const;
 
 	//! Specify the thread where the actions should be run.
-	void setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
+	//! \return The replaced executor, whose destructor may wait for an action being executed, or nullptr.
+	std::shared_ptr<IActionsExecutor>
+	setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
 
 	//!
 	//! \brief Set the sleep duration of the event loop.
diff --git a/PTN_Engine/PTN_EngineImpProxy.cpp b/PTN_Engine/PTN_EngineImpProxy.cpp
index 0c8fad5..ed17ccd 100755
--- a/PTN_Engine/PTN_EngineImpProxy.cpp
+++ b/PTN_Engine/PTN_EngineImpProxy.cpp
@@ -139,8 +139,10 @@ bool PTN_Engine::PTN_EngineImpProxy::isEventLoopRunning() const
 
 void PTN_Engine::PTN_EngineImpProxy::setActionsThreadOption(const ACTIONS_THREAD_OPTION actionsThreadOption)
 {
+	// Destroyed after unlocking: its destructor may wait for an action that calls the engine.
+	shared_ptr<IActionsExecutor> replacedActionsExecutor;
 	unique_lock guard(m_mutex);
-	m_ptnEngineImp.setActionsThreadOption(actionsThreadOption);
+	replacedActionsExecutor = m_ptnEngineImp.setActionsThreadOption(actionsThreadOption);
 }
 
 PTN_Engine::ACTIONS_THREAD_OPTION PTN_Engine::PTN_EngineImpProxy::getActionsThreadOption() const
-- 
2.43.0

