From af383a5c43cc1ed53aeb0a0a98418e5d5f59dec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:51 +0000
Subject: [PATCH 01/51] fix: StateMachine::ChangeState reports rejected
 transitions in the error state

---
 fairmq/StateMachine.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..dc1d61f 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,6 +259,8 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        // neither an action nor no_transition() is called in the (terminate) error state
+        fsm->fLastTransitionResult = false;
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From 4384f77d109395310d0f0513d21df28a856a3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 02/51] fix: RateLimiter keeps limiting below 1 Hz and accepts
 rates above 1 GHz

---
 fairmq/tools/RateLimit.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fairmq/tools/RateLimit.h b/fairmq/tools/RateLimit.h
index cbca179..a5c5275 100644
--- a/fairmq/tools/RateLimit.h
+++ b/fairmq/tools/RateLimit.h
@@ -51,7 +51,9 @@ class RateLimiter
         if (rate <= 0) {
             tw_req = std::chrono::nanoseconds(1);
         } else {
-            tw_req = std::chrono::duration_cast<clock::duration>(tw_req / rate);
+            // never zero (rates above 1 GHz), it is used as a divisor
+            tw_req = std::max(clock::duration(1),
+                              std::chrono::duration_cast<clock::duration>(tw_req / rate));
         }
         skip_check_count = std::max(1, int(std::chrono::milliseconds(5) / tw_req));
         count = skip_check_count;
@@ -87,9 +89,10 @@ class RateLimiter
                     // std::cerr << s.str() << "maybe_sleep: going too slow; sleep less: " <<
                     // duration_cast<microseconds>(ts).count() << "µs\n";
                 } else {
-                    skip_check_count =
+                    skip_check_count = std::max(
+                        1,   // rates below 1 Hz: recheck on every call
                         std::min(int(seconds(1) / tw_req),   // recheck at least every second
-                                 (skip_check_count * 5 + 3) / 4);
+                                 (skip_check_count * 5 + 3) / 4));
                     // std::cerr << s.str() << "maybe_sleep: going too slow; work more: " <<
                     // skip_check_count << "\n";
                 }
-- 
2.43.0


From 15931d18a611782333b44c0d53332c58136f87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 03/51] fix: StateQueue::WaitFor*Custom leave the caller's
 predicate intact

---
 fairmq/StateQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 1c1ad60..75f6d4a 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -47,7 +47,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForNextOrCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [this, cp = std::move(customPredicate)] { return Predicate() || cp(); });
+        fCV.wait(lock, [this, cp = std::forward<CustomPredicate>(customPredicate)] { return Predicate() || cp(); });
         return ReturnPairUnsafe();
     }
 
@@ -55,7 +55,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [cp = std::move(customPredicate)] { return cp(); });
+        fCV.wait(lock, [cp = std::forward<CustomPredicate>(customPredicate)] { return cp(); });
         return ReturnPairUnsafe();
     }
 
-- 
2.43.0


From 385df8a47c2a9d8e937b63db26f47b74a9e194ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:31 +0000
Subject: [PATCH 04/51] fix: ProgOptions converts a set property to text under
 its lock

---
 fairmq/ProgOptions.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..7e6cb02 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -141,11 +141,13 @@ class ProgOptions
 
         if (fVarMap.count(key)) {
             SetVarMapValue<typename std::decay<T>::type>(key, val);
+            // convert under the lock, the property may be changed or deleted right after
+            const std::string valAsString(PropertyHelper::GetPropertyInfo(fVarMap[key].value()).first);
 
             lock.unlock();
 
             fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+            fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, valAsString);
             return true;
         } else {
             LOG(debug) << "UpdateProperty failed, no property found with key '" << key << "'";
@@ -271,11 +273,13 @@ void fair::mq::ProgOptions::SetProperty(const std::string& key, T val)
     std::unique_lock<std::mutex> lock(fMtx);
 
     SetVarMapValue<typename std::decay<T>::type>(key, val);
+    // convert under the lock, the property may be changed or deleted right after
+    const std::string valAsString(PropertyHelper::GetPropertyInfo(fVarMap[key].value()).first);
 
     lock.unlock();
 
     fEvents.Emit<fair::mq::PropertyChange, typename std::decay<T>::type>(key, val);
-    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, GetPropertyAsString(key));
+    fEvents.Emit<fair::mq::PropertyChangeAsString, std::string>(key, valAsString);
 }
 
 extern template void fair::mq::ProgOptions::SetProperty<int>(const std::string& key, int val);
-- 
2.43.0


From 31324091ecc68f8da068dc7020b2385711ff9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 05/51] fix: Channel::Validate checks every endpoint of a comma
 separated address

---
 fairmq/Channel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Channel.cxx b/fairmq/Channel.cxx
index 4806e6e..e01a197 100644
--- a/fairmq/Channel.cxx
+++ b/fairmq/Channel.cxx
@@ -205,7 +205,7 @@ try {
         return false;
     } else {
         vector<string> endpoints;
-        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(";"));
+        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(","));
         for (const auto& endpoint : endpoints) {
             string address;
             if (endpoint[0] == '@' || endpoint[0] == '+' || endpoint[0] == '>') {
-- 
2.43.0


From 1c2ad04d81e85e86827031fcdf7bb1d8f409d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:25 +0000
Subject: [PATCH 06/51] fix: ProgOptions::AddChannel keeps the channel's send
 and receive timeouts

---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..a420d68 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -369,6 +369,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0


From 94a119d7f944b7adb18503a64847b54106822898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 07/51] fix: SuboptParser ignores name and address options
 without a value instead of crashing

---
 fairmq/SuboptParser.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/SuboptParser.cxx b/fairmq/SuboptParser.cxx
index 1d48563..f4b0e3c 100644
--- a/fairmq/SuboptParser.cxx
+++ b/fairmq/SuboptParser.cxx
@@ -99,7 +99,9 @@ Properties SuboptParser(const vector<string>& channelConfig, const string& devic
         while (subopts && *subopts != 0 && *subopts != ' ') {
             char* cur = subopts;
             int subopt = getsubopt(&subopts, (char**)channelOptionKeys, &value);
-            if (subopt == NAME) {
+            if (subopt >= 0 && value == nullptr) {
+                LOG(warn) << "Ignoring argument without a value in --channel-config: " << cur;
+            } else if (subopt == NAME) {
                 channelName = value;
                 channelProperties.put("name", channelName);
             } else if (subopt == ADDRESS) {
-- 
2.43.0


From 32508d6b866a739c32386adb4375afa87f9848f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 08/51] fix: StateMachine::ChangeState accepts a repeated error
 request again

---
 fairmq/StateMachine.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index dc1d61f..856614d 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,8 +259,9 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
-        // neither an action nor no_transition() is called in the (terminate) error state
-        fsm->fLastTransitionResult = false;
+        // neither an action nor no_transition() is called in the (terminate) error state:
+        // it accepts nothing but a repeated error request
+        fsm->fLastTransitionResult = (transition == Transition::ErrorFound);
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From cfc943b8ef4f8f64a3eb2430c2cf699497500ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 09/51] fix: Device forgets channels that were never bound or
 connected when it is reset

---
 fairmq/Device.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..59766d7 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -740,6 +740,8 @@ void Device::ResetWrapper()
 
     Reset();
 
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From 4b048464dcda091045ce7a5d2596f04e219744ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 10/51] fix: a stop request while Device::Run ends by itself no
 longer puts the device into the error state

---
 fairmq/Device.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 59766d7..982cd22 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -421,8 +421,9 @@ void Device::RunWrapper()
         Run();
     }
 
-    // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
+    // if Run() exited and the state is still RUNNING, transition to READY
+    // (unless another transition is requested at the same time)
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
         ChangeStateOrThrow(Transition::Stop);
     }
 
-- 
2.43.0


From 2bf4fbef2fdf0cc26b0beb3549b7ab06d8043fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 11/51] fix: Device does not lose the transport interrupt of a
 transition requested while a state is being entered

---
 fairmq/Device.cxx       | 4 ++++
 fairmq/StateMachine.cxx | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 982cd22..cbc8e52 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -101,6 +101,10 @@ Device::Device(ProgOptions* config, tools::Version version)
     fStateMachine.PrepareState([&](State state) {
         LOG(trace) << "Resuming transports for " << state << " state";
         ResumeTransports();
+        // do not lose the interrupt of a transition which was requested in the meantime
+        if (NewStatePending()) {
+            InterruptTransports();
+        }
     });
 
     fStateMachine.HandleStates([&](State state) {
diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 856614d..6e3ec38 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -108,8 +108,8 @@ struct Machine_ : public state_machine_def<Machine_>
         {
             fsm.fNewState = ts.Type();
             fsm.fLastTransitionResult = true;
+            fsm.fNewStatePending = true; // before the callbacks, see Device::Device()
             fsm.CallNewTransitionCallbacks(e.Type());
-            fsm.fNewStatePending = true;
             fsm.fNewStatePendingCV.notify_all();
         }
     };
-- 
2.43.0


From d32e403f22c02e5fde839694c17ca59b7f375922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:28 +0000
Subject: [PATCH 12/51] fix: Device connects for the whole initialization
 timeout when it exceeds 2147483 seconds

---
 fairmq/Device.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index cbc8e52..3187941 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -239,9 +239,9 @@ void Device::BindWrapper()
 void Device::ConnectWrapper()
 {
     // go over the list of channels until all are initialized (and removed from the uninitialized list)
-    int numAttempts = 1;
+    int64_t numAttempts = 1;
     auto sleepTimeInMS = 50;
-    auto maxAttempts = fInitializationTimeoutInS * 1000 / sleepTimeInMS;
+    auto maxAttempts = static_cast<int64_t>(fInitializationTimeoutInS) * 1000 / sleepTimeInMS;
     // first attempt
     AttachChannels(fUninitializedConnectingChannels);
     // if not all channels could be connected, update their address values from config and retry
-- 
2.43.0


From ca69340f6c1be7c4c1e7527d3c512b019493b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:40 +0000
Subject: [PATCH 13/51] fix: an exception from a data callback of a device with
 several transports puts it into the error state instead of terminating the
 process

---
 fairmq/Device.cxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 3187941..f31eea9 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>   // std::exception_ptr
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -514,16 +515,30 @@ void Device::HandleMultipleChannelInput()
 void Device::HandleMultipleTransportInput()
 {
     vector<thread> threads;
+    exception_ptr error;
 
     fMultitransportProceed = true;
 
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        threads.emplace_back([this, &i, &error]() {
+            try {
+                PollForTransport(fTransports.at(i.first).get(), i.second);
+            } catch (...) {
+                // an exception may not leave the thread, hand it over and stop the other threads
+                lock_guard<mutex> lock(fMultitransportMutex);
+                error = current_exception();
+                fMultitransportProceed = false;
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (error) {
+        rethrow_exception(error);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
-- 
2.43.0


From 2b72754dbd4e1896345b0db9196c240955a18b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 14/51] fix: BenchmarkSampler and Sink stop after
 max-iterations transfers, not one later

---
 fairmq/devices/BenchmarkSampler.h | 4 ++--
 fairmq/devices/Sink.h             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fairmq/devices/BenchmarkSampler.h b/fairmq/devices/BenchmarkSampler.h
index da00ebb..06b9d2e 100644
--- a/fairmq/devices/BenchmarkSampler.h
+++ b/fairmq/devices/BenchmarkSampler.h
@@ -63,12 +63,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(parts) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             } else {
                 MessagePtr msg(dataOutChannel.NewMessage(fMsgSize, fair::mq::Alignment{fMsgAlignment}));
@@ -77,12 +77,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(msg) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             }
 
diff --git a/fairmq/devices/Sink.h b/fairmq/devices/Sink.h
index c10ce55..3e07d5e 100644
--- a/fairmq/devices/Sink.h
+++ b/fairmq/devices/Sink.h
@@ -88,6 +88,7 @@ class Sink : public Device
                 }
             }
 
+            fNumIterations++;
             if (fMaxFileSize > 0 && fBytesWritten >= fMaxFileSize) {
                 LOG(info) << "Written " << fBytesWritten << " bytes, stopping...";
                 break;
@@ -98,7 +99,6 @@ class Sink : public Device
                     break;
                 }
             }
-            fNumIterations++;
         }
 
         if (fOutputFile.is_open()) {
-- 
2.43.0


From d14e172c51e75cb54219311dcc34bd813a3604f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 15/51] fix: PluginServices::ReleaseDeviceControl wakes every
 waiting thread

---
 fairmq/PluginServices.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/PluginServices.cxx b/fairmq/PluginServices.cxx
index 44368c7..aa83e81 100644
--- a/fairmq/PluginServices.cxx
+++ b/fairmq/PluginServices.cxx
@@ -69,7 +69,7 @@ auto PluginServices::ReleaseDeviceControl(const string& controller) -> void
         }
     }
 
-    fReleaseDeviceControlCondition.notify_one();
+    fReleaseDeviceControlCondition.notify_all();
 }
 
 auto PluginServices::GetDeviceController() const -> boost::optional<string>
-- 
2.43.0


From 94dd7bc3cc5aa0f11a7e57b5c43304a7bd2f6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:55 +0000
Subject: [PATCH 16/51] fix: PluginManager does not list a built-in plugin
 twice when it is loaded again

---
 fairmq/PluginManager.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/PluginManager.cxx b/fairmq/PluginManager.cxx
index 8a528f0..268da81 100644
--- a/fairmq/PluginManager.cxx
+++ b/fairmq/PluginManager.cxx
@@ -235,7 +235,8 @@ auto fair::mq::PluginManager::LoadPluginDynamic(const string& pluginName) -> voi
 auto fair::mq::PluginManager::LoadPluginStatic(const string& pluginName) -> void
 {
     // Load symbol
-    if (fPluginFactories.find(pluginName) == fPluginFactories.end()) {
+    // (the builtin plugins have no entry in fPluginFactories)
+    if (find(fPluginOrder.begin(), fPluginOrder.end(), pluginName) == fPluginOrder.end()) {
         try {
             if ("control" == pluginName) {
                 try {
-- 
2.43.0


From 21aa0eb6ea14380aba4d4a0ae70c04f9021dc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:28 +0000
Subject: [PATCH 17/51] fix: zmq aligned message allocation wraps around for
 sizes close to SIZE_MAX

---
 fairmq/zeromq/Message.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..da5c30f 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -20,6 +20,7 @@
 #include <cstddef>
 #include <cstdlib> // malloc
 #include <cstring>
+#include <limits>
 #include <memory> // make_unique
 #include <new> // bad_alloc
 #include <string>
@@ -69,7 +70,10 @@ class Message final : public fair::mq::Message
 
     static std::pair<void*, void*> AllocateAligned(size_t size, size_t alignment)
     {
-        char* fullBufferPtr = static_cast<char*>(malloc(size + alignment));
+        char* fullBufferPtr = nullptr;
+        if (size <= std::numeric_limits<size_t>::max() - alignment) {
+            fullBufferPtr = static_cast<char*>(malloc(size + alignment));
+        }
         if (!fullBufferPtr) {
             LOG(error) << "failed to allocate buffer with provided size (" << size << ") and alignment (" << alignment << ").";
             throw std::bad_alloc();
-- 
2.43.0


From 471279c528290b919bebe7af01eb2dfa174c0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:29 +0000
Subject: [PATCH 18/51] fix: zmq message loses its requested alignment after
 the first receive that had to realign

---
 fairmq/zeromq/Message.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index da5c30f..88b2dea 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -249,8 +249,10 @@ class Message final : public fair::mq::Message
                 // create new aligned buffer
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
-                // rebuild the message with the new buffer
+                // rebuild the message with the new buffer, keeping the requested alignment
+                size_t const alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From c4efe2370c2eeaafb743ab9b41db92afe4190f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 19/51] fix: shmem allocation size wraps around for message
 sizes close to SIZE_MAX

---
 fairmq/shmem/Manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..5a6ed0d 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -679,7 +679,7 @@ class Manager
         while (!ptr) {
             try {
                 size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
-                if (fullSize > segmentSize) {
+                if (fullSize < size || fullSize > segmentSize) { // the first part: header and alignment on top of a size close to the maximum
                     throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
                 }
 
-- 
2.43.0


From 14efa58334e09c752f8d2fc2e53590383a9cc502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 20/51] fix: shmem message with an alignment of 64 KiB or more
 is not aligned (offset overflow)

---
 fairmq/shmem/Common.h  | 6 +++---
 fairmq/shmem/Message.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..d290886 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -89,7 +89,7 @@ struct ShmHeader
 {
     struct Hdr
     {
-        uint16_t userOffset;
+        uint32_t userOffset;
         std::atomic<uint16_t> refCount;
     };
 
@@ -113,7 +113,7 @@ struct ShmHeader
         return HdrPtr(ptr)->refCount;
     }
 
-    static uint16_t UserOffset(char* ptr)
+    static size_t UserOffset(char* ptr)
     {
         return HdrPartSize() + HdrPtr(ptr)->userOffset;
     }
@@ -148,7 +148,7 @@ struct ShmHeader
         memcpy(ptr, &hdrOffset, sizeof(hdrOffset));
 
         // offset to the beginning of the user buffer, store in Hdr together with the ref count
-        uint16_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
+        uint32_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
         new(ptr + sizeof(uint16_t) + hdrOffset) Hdr{ userOffset, std::atomic<uint16_t>(1) };
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..470cb07 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -199,7 +199,7 @@ class Message final : public fair::mq::Message
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-                    uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
+                    size_t userOffset = ShmHeader::UserOffset(oldPtr);
                     char* ptr = fManager.ShrinkInPlace(userOffset + newSize, oldPtr, fSegmentId);
                     fLocalPtr = ShmHeader::UserPtr(ptr);
                     fSize = newSize;
-- 
2.43.0


From 76bf1c5a9e30e1436076e867a5e7b493d478d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 21/51] fix: shmem message keeps properties of its previous
 buffer after being emptied (region, segment, queued flag)

---
 fairmq/shmem/Message.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 470cb07..b1f9e85 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -124,33 +124,28 @@ class Message final : public fair::mq::Message
     void Rebuild() override
     {
         CloseMessage();
-        fQueued = false;
     }
 
     void Rebuild(Alignment /* alignment */) override
     {
         CloseMessage();
-        fQueued = false;
     }
 
     void Rebuild(size_t size) override
     {
         CloseMessage();
-        fQueued = false;
         InitializeChunk(size);
     }
 
     void Rebuild(size_t size, Alignment alignment) override
     {
         CloseMessage();
-        fQueued = false;
         InitializeChunk(size, alignment.alignment);
     }
 
     void Rebuild(void* data, size_t size, fair::mq::FreeFn* ffn, void* hint = nullptr) override
     {
         CloseMessage();
-        fQueued = false;
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
@@ -394,9 +389,17 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        fHandle = -1;
+        // back to the state of an empty message, so that the message can be reused
+        fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHint = 0;
+        fHandle = -1;
+        fShared = -1;
+        fRegionId = 0;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
+        fQueued = false;
     }
 
     void ReleaseUnmanagedRegionBlock()
-- 
2.43.0


From 8c86c31564b9fabc18384b8bbb20d40024628640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 22/51] fix: rebuilding or copying a shmem message decrements
 the message counter

---
 fairmq/shmem/Message.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index b1f9e85..755c75f 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -314,7 +314,11 @@ class Message final : public fair::mq::Message
         fManaged = otherMsg.fManaged;
     }
 
-    ~Message() override { CloseMessage(); }
+    ~Message() override
+    {
+        CloseMessage();
+        fManager.DecrementMsgCounter();
+    }
 
   private:
     Manager& fManager;
@@ -419,7 +423,6 @@ class Message final : public fair::mq::Message
     {
         try {
             Deallocate();
-            fManager.DecrementMsgCounter();
         } catch (SharedMemoryError& sme) {
             LOG(error) << "error closing message: " << sme.what();
         } catch (boost::interprocess::lock_exception& le) {
-- 
2.43.0


From 26b31e5c0cc31a0f8ff61d2e50214076b2f261c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 23/51] fix: shmem message does not release a user buffer of
 size 0

---
 fairmq/shmem/Message.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 755c75f..0ff2645 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,11 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -149,11 +149,11 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From 8c7acfd07ec63745170c569910bdd42508afc0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 24/51] fix: copying a shmem message into itself destroys it

---
 fairmq/shmem/Message.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 0ff2645..da80406 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -258,6 +258,10 @@ class Message final : public fair::mq::Message
     void Copy(const fair::mq::Message& other) override
     {
         const Message& otherMsg = static_cast<const Message&>(other);
+        if (&otherMsg == this) {
+            return;
+        }
+
         // if the other message is not initialized, close this one too and return
         if (otherMsg.fHandle < 0) {
             CloseMessage();
-- 
2.43.0


From c2b9c2258498715b071e1d27a0536c8bbcd74924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 25/51] fix: shmem SetUsedSize shrinks a buffer that is shared
 with other messages or not managed

---
 fairmq/shmem/Message.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index da80406..b319a62 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -191,6 +191,11 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            if (!fManaged || GetRefCount() > 1) {
+                // the buffer belongs to an unmanaged region or is shared with other messages, keep it as it is
+                fSize = newSize;
+                return true;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-- 
2.43.0


From c6ae9f1952b8cf1f76a344d021489c25872541e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 26/51] fix: shmem receive into a non-empty message leaks its
 buffer

---
 fairmq/shmem/Message.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index b319a62..ef3f366 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -344,6 +344,7 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        CloseMessage(); // release the current buffer, if any
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
-- 
2.43.0


From 5c3f8dd49d9aa05a2cbb0bf6275a3f20402c2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:04 +0000
Subject: [PATCH 27/51] fix: shmem region message is accepted although its data
 reaches beyond the region

---
 fairmq/shmem/Message.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index ef3f366..8598d34 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -93,7 +93,8 @@ class Message final : public fair::mq::Message
         }
 
         if (reinterpret_cast<const char*>(data) >= reinterpret_cast<const char*>(region->GetData()) &&
-            reinterpret_cast<const char*>(data) <= reinterpret_cast<const char*>(region->GetData()) + region->GetSize()) {
+            reinterpret_cast<const char*>(data) <= reinterpret_cast<const char*>(region->GetData()) + region->GetSize() &&
+            size <= static_cast<size_t>(reinterpret_cast<const char*>(region->GetData()) + region->GetSize() - reinterpret_cast<const char*>(data))) {
             fHandle = (boost::interprocess::managed_shared_memory::handle_t)(reinterpret_cast<const char*>(data) - reinterpret_cast<const char*>(region->GetData()));
         } else {
             LOG(error) << "trying to create region message with data from outside the region";
-- 
2.43.0


From 83bb52eda1792b7ac0eee79027da85fd11cf3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:29 +0000
Subject: [PATCH 28/51] fix: copying a zmq message into itself destroys it

---
 fairmq/zeromq/Message.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index 88b2dea..f9157ed 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -262,6 +262,10 @@ class Message final : public fair::mq::Message
     void Copy(const fair::mq::Message& msg) override
     {
         const Message& zMsg = static_cast<const Message&>(msg);
+        if (&zMsg == this) {
+            return;
+        }
+
         // Shares the message buffer between msg and this fMsg.
         if (zmq_msg_copy(fMsg.get(), zMsg.GetMessage()) != 0) {
             LOG(error) << "failed copying message, reason: " << zmq_strerror(errno);
-- 
2.43.0


From 0bb82c57470f83d5cd164e4902e2e591ee538462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 29/51] fix: shmem Manager::GetRegion can deadlock with the
 creation or removal of a region

---
 fairmq/shmem/Manager.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 5a6ed0d..287bb02 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -397,15 +397,17 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
             RegionConfig cfg;
-            // get region info
+            // get region info (fShmMtx must not be locked while holding fLocalRegionsMtx, creation and removal of regions lock them in the opposite order)
             {
                 boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
                 RegionInfo regionInfo = fShmRegions->at(id);
@@ -416,6 +418,11 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) { // added by another thread in the meantime
+                return it->second.get();
+            }
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
-- 
2.43.0


From fb2c5044efefbb61ab53a924ba12f623c4b27b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 30/51] fix: destroying a shmem message of an unmanaged region
 that is gone terminates the process

---
 fairmq/shmem/Manager.h |  3 +++
 fairmq/shmem/Message.h | 12 +++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 287bb02..1676873 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -431,6 +431,9 @@ class Manager
             LOG(error) << "Could not get remote region with id '" << id << "'. Does the region creator run with the same session id?";
             LOG(error) << oor.what();
             return nullptr;
+        } catch (TransportError& e) { // the region is gone
+            LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
+            return nullptr;
         } catch (boost::interprocess::interprocess_exception& e) {
             LOG(error) << "Could not get remote region for id '" << id << "': " << e.what();
             return nullptr;
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 8598d34..2501b67 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -404,7 +404,12 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        // back to the state of an empty message, so that the message can be reused
+        ResetMembers();
+    }
+
+    // back to the state of an empty message, so that the message can be reused
+    void ResetMembers()
+    {
         fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
@@ -436,8 +441,13 @@ class Message final : public fair::mq::Message
             Deallocate();
         } catch (SharedMemoryError& sme) {
             LOG(error) << "error closing message: " << sme.what();
+            ResetMembers();
+        } catch (TransportError& te) { // the unmanaged region of the message is gone
+            LOG(error) << "error closing message: " << te.what();
+            ResetMembers();
         } catch (boost::interprocess::lock_exception& le) {
             LOG(error) << "error closing message: " << le.what();
+            ResetMembers();
         }
     }
 };
-- 
2.43.0


From de1254730c4220a5f78bfdf540ee20dbf94c40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:44 +0000
Subject: [PATCH 31/51] fix: GetRegionInfo fails, and the region event thread
 terminates the process, when a region is destroyed meanwhile

---
 fairmq/shmem/Manager.h | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 1676873..4d38cbd 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -511,20 +511,27 @@ class Manager
             if (!info.managed && info.event == RegionEvent::created) {
                 auto cfgIt = regionCfgs.find(info.id);
                 if (cfgIt != regionCfgs.end()) {
-                    UnmanagedRegion* region = nullptr;
-                    std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-                    auto it = fRegions.find(info.id);
-                    if (it != fRegions.end()) {
-                        region = it->second.get();
-                    } else {
-                        auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
-                        region = r.first->second.get();
-                        region->InitializeQueues();
-                        region->StartAckSender();
-                    }
+                    try {
+                        UnmanagedRegion* region = nullptr;
+                        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                        auto it = fRegions.find(info.id);
+                        if (it != fRegions.end()) {
+                            region = it->second.get();
+                        } else {
+                            auto r = fRegions.emplace(cfgIt->first, std::make_unique<UnmanagedRegion>(fShmId, 0, false, cfgIt->second));
+                            region = r.first->second.get();
+                            region->InitializeQueues();
+                            region->StartAckSender();
+                        }
 
-                    info.ptr = region->GetData();
-                    info.size = region->GetSize();
+                        info.ptr = region->GetData();
+                        info.size = region->GetSize();
+                    } catch (TransportError& e) { // the region has been destroyed since its info was read
+                        LOG(debug) << "Region with id " << info.id << " is gone: " << e.what();
+                        info.event = RegionEvent::destroyed;
+                        info.ptr = nullptr;
+                        info.size = 0;
+                    }
                 } else {
                     info.ptr = nullptr;
                     info.size = 0;
-- 
2.43.0


From 959e027c7326f7811388a0030774283db52eabae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 32/51] fix: file-backed shmem region is not registered, so
 that other devices cannot find it and its destruction has no effect

---
 fairmq/shmem/UnmanagedRegion.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..71ca569 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -34,6 +34,8 @@
 #include <ios>
 #include <utility> // move
 
+#include <unistd.h> // access
+
 namespace fair::mq::shmem
 {
 
@@ -84,6 +86,7 @@ struct UnmanagedRegion
             fName = std::string(cfg.path + fName);
 
             if (fControlling) {
+                created = access(fName.c_str(), F_OK) != 0;
                 // create a file
                 std::filebuf fbuf;
                 if (fbuf.open(fName, std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary)) {
-- 
2.43.0


From 2182027d8033a43c86102d974df1e2f64ddf9e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 33/51] fix: zmq regions created concurrently can get the same
 id

---
 fairmq/zeromq/Context.h         | 5 ++---
 fairmq/zeromq/UnmanagedRegion.h | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..d1c62f7 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -112,17 +112,16 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    uint16_t NextRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
             fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
         }
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..b73c059 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.NextRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From f8afaa169a2f2a876c1d218b437061bcf796d7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:29 +0000
Subject: [PATCH 34/51] fix: acknowledgements of region blocks released right
 before the region is destroyed can be lost (missed wakeup of the sender)

---
 fairmq/shmem/UnmanagedRegion.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index 71ca569..f2c0872 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -210,7 +210,10 @@ struct UnmanagedRegion
     ~UnmanagedRegion()
     {
         LOG(debug) << "~UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
-        fStopAcks = true;
+        {
+            std::lock_guard<std::mutex> lock(fBlockMtx); // the sender must not miss it between checking and waiting
+            fStopAcks = true;
+        }
 
         if (fAcksSender.joinable()) {
             fBlockSendCV.notify_one();
@@ -363,9 +366,7 @@ struct UnmanagedRegion
                 std::unique_lock<std::mutex> lock(fBlockMtx);
 
                 // try to get <fAckBunchSize> blocks
-                if (fBlocksToFree.size() < fAckBunchSize) {
-                    fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500));
-                }
+                fBlockSendCV.wait_for(lock, std::chrono::milliseconds(500), [&] { return fStopAcks || fBlocksToFree.size() >= fAckBunchSize; });
 
                 // send whatever blocks we have
                 blocksToSend = std::min(fBlocksToFree.size(), fAckBunchSize);
@@ -452,7 +453,10 @@ struct UnmanagedRegion
 
     void StopAcks()
     {
-        fStopAcks = true;
+        {
+            std::lock_guard<std::mutex> lock(fBlockMtx); // the sender must not miss it between checking and waiting
+            fStopAcks = true;
+        }
 
         if (fAcksSender.joinable()) {
             fBlockSendCV.notify_one();
-- 
2.43.0


From 079b7e281efe58c43774a69f57dede91ca1f52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:07 +0000
Subject: [PATCH 35/51] fix: automatic id of a shmem region can be one that has
 been chosen explicitly for another region

---
 fairmq/shmem/Manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 4d38cbd..cb99f96 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -319,6 +319,11 @@ class Manager
                         LOG(trace) << "initialized region counter with: " << rc->fCount;
                     }
 
+                    // skip ids that have been chosen explicitly
+                    while (fShmRegions->find(rc->fCount) != fShmRegions->end()) {
+                        (rc->fCount)++;
+                    }
+
                     cfg.id = rc->fCount;
                 }
 
-- 
2.43.0


From 7cbf34eefc255d3f2a91b2544b8bb5c6bde7c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:56 +0000
Subject: [PATCH 36/51] fix: shmem region size is not checked when the region
 has been viewed before

---
 fairmq/shmem/Manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index cb99f96..a54a245 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -341,6 +341,11 @@ class Manager
                         throw TransportError(tools::ToString("Unmanaged Region with id ", id, " already exists. Only unique IDs per session are allowed."));
                     }
 
+                    if (size != 0 && size != region->GetSize()) {
+                        LOG(error) << "Existing unmanaged region (view) size (" << region->GetSize() << ") does not match configured size (" << size << ")";
+                        throw TransportError(tools::ToString("Existing unmanaged region (view) size (", region->GetSize(), ") does not match configured size (", size, ")"));
+                    }
+
                     LOG(debug) << "Unmanaged region (view) already present, promoting to controller";
                     region->BecomeController(cfg);
                 } else {
-- 
2.43.0


From 41407852fde6ffcf3b9e0d369025f112cc4da807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:31 +0000
Subject: [PATCH 37/51] fix: size and byte counters of zmq multipart transfers
 with parts larger than INT_MAX are wrong

---
 fairmq/zeromq/Socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..561c89f 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -172,9 +172,11 @@ class Socket final : public fair::mq::Socket
                 bool repeat = false;
 
                 for (unsigned int i = 0; i < vecSize; ++i) {
+                    // the return value of zmq_msg_send cannot represent sizes above INT_MAX
+                    int64_t partSize = zmq_msg_size(static_cast<Message*>(msgVec[i].get())->GetMessage());
                     int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
                     if (nbytes >= 0) {
-                        totalSize += nbytes;
+                        totalSize += partSize;
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
@@ -225,8 +227,8 @@ class Socket final : public fair::mq::Socket
                 int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
                 if (nbytes >= 0) {
                     static_cast<Message*>(part.get())->Realign();
+                    totalSize += static_cast<int64_t>(part->GetSize());
                     msgVec.push_back(std::move(part));
-                    totalSize += nbytes;
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-- 
2.43.0


From 984bd414772f196a0cc58692a8e3128d501201aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:40 +0000
Subject: [PATCH 38/51] fix: poller of a channel that is listed twice polls
 uninitialized items

---
 fairmq/shmem/Poller.h  | 4 +++-
 fairmq/zeromq/Poller.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Poller.h b/fairmq/shmem/Poller.h
index d37b864..1ab2a26 100644
--- a/fairmq/shmem/Poller.h
+++ b/fairmq/shmem/Poller.h
@@ -72,7 +72,9 @@ class Poller final : public fair::mq::Poller
             int offset = 0;
             // calculate offsets and the total size of the poll item set
             for (std::string channel : channelList) {
-                fOffsetMap[channel] = offset;
+                if (!fOffsetMap.emplace(channel, offset).second) {
+                    continue; // the channel has been listed before
+                }
                 offset += channelsMap.at(channel).size();
                 fNumItems += channelsMap.at(channel).size();
             }
diff --git a/fairmq/zeromq/Poller.h b/fairmq/zeromq/Poller.h
index bd708e9..3772238 100644
--- a/fairmq/zeromq/Poller.h
+++ b/fairmq/zeromq/Poller.h
@@ -78,7 +78,9 @@ class Poller final : public fair::mq::Poller
             int offset = 0;
             // calculate offsets and the total size of the poll item set
             for (std::string const & channel : channelList) {
-                fOffsetMap[channel] = offset;
+                if (!fOffsetMap.emplace(channel, offset).second) {
+                    continue; // the channel has been listed before
+                }
                 offset += channelsMap.at(channel).size();
                 fNumItems += channelsMap.at(channel).size();
             }
-- 
2.43.0


From 6e9534ef1d15e2945b3251e255caf5fcc8987370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 39/51] fix: failed creation of a shmem region leaves its
 objects behind

---
 fairmq/shmem/UnmanagedRegion.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index f2c0872..b21a15b 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -11,6 +11,7 @@
 
 #include <fairmq/shmem/Common.h>
 #include <fairmq/shmem/Monitor.h>
+#include <fairmq/tools/Exceptions.h>
 #include <fairmq/tools/Strings.h>
 #include <fairmq/UnmanagedRegion.h>
 #include <fairmq/Transports.h>
@@ -80,6 +81,14 @@ struct UnmanagedRegion
         const uint16_t id = cfg.id.value();
         bool created = false;
 
+        // if the initialization fails, do not leave behind objects that nobody knows about
+        tools::CallOnDestruction removeCreatedObjects([&]() {
+            if (created && cfg.path.empty()) {
+                Monitor::RemoveObject(fName);
+                Monitor::RemoveObject(fRefCountSegmentName);
+            }
+        });
+
         LOG(debug) << "UnmanagedRegion(): " << fName << " (" << (fControlling ? "controller" : "viewer") << ")";
 
         if (!cfg.path.empty()) {
@@ -116,8 +125,8 @@ struct UnmanagedRegion
                     if (fControlling) {
                         LOG(debug) << "Could not open controlling shared_memory_object for region " << id << ": " << e.what() << ", creating...";
                         fShmemObject = shared_memory_object(create_only, fName.c_str(), read_write);
-                        fShmemObject.truncate(size);
                         created = true;
+                        fShmemObject.truncate(size);
                     } else {
                         LOG(error) << "Could not open view for shared_memory_object for region " << id << ": " << e.what();
                         throw TransportError(tools::ToString("Could not open view for shared_memory_object for region ", id, ": ", e.what()));
@@ -157,6 +166,8 @@ struct UnmanagedRegion
             Register(shmId, cfg);
         }
 
+        removeCreatedObjects.disable();
+
         LOG(debug) << (created ? "Created" : "Opened") << " unmanaged shared memory region: " << fName << " (" << (fControlling ? "controller" : "viewer") << "), refCount segment size: " << fRcSegmentSize;
     }
 
-- 
2.43.0


From 49c5055c95a617ba2101c253db26ecaa5945d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 40/51] fix: failed creation of a managed shmem segment makes
 its session unusable

---
 fairmq/shmem/Manager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index a54a245..3c315a2 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -197,6 +197,10 @@ class Manager
                     << " Available: " << std::visit([](auto& s) { return s.get_free_memory(); }, fSegments.at(fSegmentId)) << " bytes."
                     << " Allocation algorithm: " << allocationAlgorithm;
             } catch (interprocess_exception& bie) {
+                if (fShmSegments->find(fSegmentId) == fShmSegments->end()) {
+                    // do not leave behind an incomplete segment that nobody knows about
+                    Monitor::RemoveObject(MakeShmName(fShmId, "m", fSegmentId));
+                }
                 LOG(error) << "Failed to create/open shared memory segment '" << "fmq_" << fShmId << "_m_" << fSegmentId << "': " << bie.what();
                 throw TransportError(tools::ToString("Failed to create/open shared memory segment '", "fmq_", fShmId, "_m_", fSegmentId, "': ", bie.what()));
             }
-- 
2.43.0


From 1a920fce54ebefa617832b2257952f430916dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 41/51] fix: null pointer dereference when the initialization
 of a shmem session fails

---
 fairmq/shmem/Manager.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 3c315a2..4aab046 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -786,9 +786,11 @@ class Manager
         try {
             boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
 
-            (fDeviceCounter->fCount)--;
-
-            if (fDeviceCounter->fCount == 0) {
+            if (!fDeviceCounter) {
+                // initialization failed before this user has been counted
+                auto deviceCounter = fManagementSegment.find<DeviceCounter>(unique_instance).first;
+                lastRemoved = !deviceCounter || deviceCounter->fCount == 0;
+            } else if (--(fDeviceCounter->fCount) == 0) {
                 LOG(debug) << "Last segment user, " << (fNoCleanup ? "skipping removal (--shm-no-cleanup is true)." : "removing segment.");
                 lastRemoved = true;
             } else {
-- 
2.43.0


From 95d3665c026e791d904d2e5ab8fdad8cd813167e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:03 +0000
Subject: [PATCH 42/51] fix: shmem monitor can clean up a live session when a
 heartbeat arrives during its check

---
 fairmq/shmem/Monitor.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index b996caa..319930d 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -137,8 +137,10 @@ void Monitor::Watch()
 
             fSeenOnce = true;
 
+            // read the last heartbeat first, a heartbeat later than now would make the (unsigned) duration huge
+            auto lastHeartbeat = fLastHeartbeat.load();
             auto now = chrono::high_resolution_clock::now();
-            unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - fLastHeartbeat.load()).count();
+            unsigned int duration = chrono::duration_cast<chrono::milliseconds>(now - lastHeartbeat).count();
 
             if (fHeartbeatTriggered && duration > fTimeoutInMS) {
                 // memory is present, but no heartbeats since timeout duration
-- 
2.43.0


From f3662e464c7549c70981c6bc770abcdc59eedcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:19 +0000
Subject: [PATCH 43/51] fix: shutdown sequence of the control plugin can miss a
 state change and hang

---
 fairmq/plugins/control/Control.cxx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7788253..0f5598a 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -470,10 +470,9 @@ auto Control::SignalHandler() -> void
 
 auto Control::RunShutdownSequence() -> void
 {
+    // clear before reading the current state, otherwise a state entered in between is lost and waited for forever
+    fStateQueue.Clear();
     auto nextState = GetCurrentDeviceState();
-    if (nextState != DeviceState::Error) {
-        fStateQueue.Clear();
-    }
     while (nextState != DeviceState::Exiting && nextState != DeviceState::Error) {
         switch (nextState) {
             case DeviceState::Idle:
-- 
2.43.0


From 4f949f731cea145785e1fd8a499c6fd6e600d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:51 +0000
Subject: [PATCH 44/51] fix: out-of-bounds write and null pointer dereference
 in Monitor::GetDebugInfo

The buffers were stored into an empty vector, at the index of their
offset, and a session without debug information was dereferenced.
---
 fairmq/shmem/Monitor.cxx | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Monitor.cxx b/fairmq/shmem/Monitor.cxx
index 319930d..ac1e05b 100644
--- a/fairmq/shmem/Monitor.cxx
+++ b/fairmq/shmem/Monitor.cxx
@@ -479,14 +479,13 @@ unordered_map<uint16_t, std::vector<BufferDebugInfo>> Monitor::GetDebugInfo(cons
 
         Uint16MsgDebugMapHashMap* debug = managementSegment.find<Uint16MsgDebugMapHashMap>(bipc::unique_instance).first;
 
-        result.reserve(debug->size());
-
-
         if (debug) {
+            result.reserve(debug->size());
+
             for (const auto& s : *debug) {
                 result[s.first].reserve(s.second.size());
                 for (const auto& e : s.second) {
-                    result[s.first][e.first] = BufferDebugInfo(e.first, e.second.fPid, e.second.fSize, e.second.fCreationTime);
+                    result[s.first].emplace_back(e.first, e.second.fPid, e.second.fSize, e.second.fCreationTime);
                 }
             }
         } else {
-- 
2.43.0


From 8e9845896fd7789f91d0143a3723fa79d9a6df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:51 +0000
Subject: [PATCH 45/51] fix: debug information of buffers released by a user of
 another segment is kept

The offset of the released buffer was computed relative to the segment of
the releasing user, so its entry was not found (or another one erased).
---
 fairmq/shmem/Manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 4aab046..5422002 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -762,7 +762,7 @@ class Manager
         boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> lock(*fShmMtx);
         DecrementShmMsgCounter(segmentId);
         try {
-            fMsgDebug->at(segmentId).erase(GetHandleFromAddress(ShmHeader::UserPtr(ptr), fSegmentId));
+            fMsgDebug->at(segmentId).erase(GetHandleFromAddress(ShmHeader::UserPtr(ptr), segmentId));
         } catch (const std::out_of_range& oor) {
             LOG(debug) << "could not locate debug container for " << segmentId << ": " << oor.what();
         }
-- 
2.43.0


From e6aae033fd3c13ac165d68750912fa82484e431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:44 +0000
Subject: [PATCH 46/51] fix: memory leak in getHostIPs when the conversion of
 an address fails

---
 fairmq/tools/Network.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fairmq/tools/Network.cxx b/fairmq/tools/Network.cxx
index 7922f2c..e5757fb 100644
--- a/fairmq/tools/Network.cxx
+++ b/fairmq/tools/Network.cxx
@@ -62,6 +62,7 @@ map<string, string> getHostIPs()
                             NI_NUMERICHOST);
             if (s != 0) {
                 cout << "getnameinfo() failed: " << gai_strerror(s) << endl;
+                freeifaddrs(ifaddr);
                 throw runtime_error("getnameinfo() failed");
             }
 
-- 
2.43.0


From e5f0f25de9fdc0dd239fb1336dbd8740a49b0766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:09 +0000
Subject: [PATCH 47/51] fix: zeromq messages are left uninitialized when their
 memory cannot be allocated

---
 fairmq/zeromq/Message.h | 69 ++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index f9157ed..a0a9a52 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -63,9 +63,7 @@ class Message final : public fair::mq::Message
         : fair::mq::Message(factory)
         , fMsg(std::make_unique<zmq_msg_t>())
     {
-        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-        }
+        InitWithSize(size);
     }
 
     static std::pair<void*, void*> AllocateAligned(size_t size, size_t alignment)
@@ -91,14 +89,9 @@ class Message final : public fair::mq::Message
         , fMsg(std::make_unique<zmq_msg_t>())
     {
         if (fAlignment != 0) {
-            auto ptrs = AllocateAligned(size, fAlignment);
-            if (zmq_msg_init_data(fMsg.get(), ptrs.second, size, [](void* /* data */, void* hint) { free(hint); }, ptrs.first) != 0) {
-                LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-            }
+            InitAligned(size);
         } else {
-            if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-                LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-            }
+            InitWithSize(size);
         }
     }
 
@@ -106,9 +99,7 @@ class Message final : public fair::mq::Message
         : fair::mq::Message(factory)
         , fMsg(std::make_unique<zmq_msg_t>())
     {
-        if (zmq_msg_init_data(fMsg.get(), data, size, ffn, hint) != 0) {
-            LOG(error) << "failed initializing message with data, reason: " << zmq_strerror(errno);
-        }
+        InitWithData(data, size, ffn, hint);
     }
 
     Message(UnmanagedRegionPtr& region, void* data, const size_t size, void* hint = 0, fair::mq::TransportFactory* factory = nullptr)
@@ -123,9 +114,7 @@ class Message final : public fair::mq::Message
         // FIXME: make this zero-copy:
         // simply taking over the provided buffer can casue premature delete, since region could be
         // destroyed before the message is sent out. Needs lifetime extension for the ZMQ region.
-        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-        }
+        InitWithSize(size);
 
         std::memcpy(zmq_msg_data(fMsg.get()), data, size);
         // call region callback
@@ -166,9 +155,7 @@ class Message final : public fair::mq::Message
     {
         CloseMessage();
         fMsg = std::make_unique<zmq_msg_t>();
-        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-        }
+        InitWithSize(size);
     }
 
     void Rebuild(size_t size, Alignment alignment) override
@@ -178,14 +165,9 @@ class Message final : public fair::mq::Message
         fMsg = std::make_unique<zmq_msg_t>();
 
         if (fAlignment != 0) {
-            auto ptrs = AllocateAligned(size, fAlignment);
-            if (zmq_msg_init_data(fMsg.get(), ptrs.second, size, [](void* /* data */, void* hint) { free(hint); }, ptrs.first) != 0) {
-                LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-            }
+            InitAligned(size);
         } else {
-            if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-                LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-            }
+            InitWithSize(size);
         }
     }
 
@@ -193,9 +175,7 @@ class Message final : public fair::mq::Message
     {
         CloseMessage();
         fMsg = std::make_unique<zmq_msg_t>();
-        if (zmq_msg_init_data(fMsg.get(), data, size, ffn, hint) != 0) {
-            LOG(error) << "failed initializing message with data, reason: " << zmq_strerror(errno);
-        }
+        InitWithData(data, size, ffn, hint);
     }
 
     void* GetData() const override
@@ -281,6 +261,37 @@ class Message final : public fair::mq::Message
 
     zmq_msg_t* GetMessage() const { return fMsg.get(); }
 
+    // If the memory for a message cannot be had, a valid empty message is left behind.
+    void InitWithSize(size_t size)
+    {
+        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
+            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
+            zmq_msg_init(fMsg.get());
+            throw std::bad_alloc();
+        }
+    }
+
+    void InitWithData(void* data, size_t size, fair::mq::FreeFn* ffn, void* hint)
+    {
+        if (zmq_msg_init_data(fMsg.get(), data, size, ffn, hint) != 0) {
+            LOG(error) << "failed initializing message with data, reason: " << zmq_strerror(errno);
+            zmq_msg_init(fMsg.get());
+            throw std::bad_alloc();
+        }
+    }
+
+    void InitAligned(size_t size)
+    {
+        zmq_msg_init(fMsg.get());
+        auto ptrs = AllocateAligned(size, fAlignment);
+        try {
+            InitWithData(ptrs.second, size, [](void* /* data */, void* hint) { free(hint); }, ptrs.first);
+        } catch (std::bad_alloc&) {
+            free(ptrs.first);
+            throw;
+        }
+    }
+
     void CloseMessage()
     {
         if (zmq_msg_close(fMsg.get()) != 0) {
-- 
2.43.0


From ad420deaac83b64341b34facbef5060dce0d7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:59 +0000
Subject: [PATCH 48/51] fix: acknowledgements are dropped when the ack queue is
 full while a region is closed

The sender gave up on a batch when the queue was full and it was asked to stop.
It now waits for the receiver for up to the linger time of the region.
---
 fairmq/shmem/UnmanagedRegion.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index b21a15b..09e8bbc 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -371,6 +371,7 @@ struct UnmanagedRegion
     {
         std::unique_ptr<RegionBlock[]> blocks = std::make_unique<RegionBlock[]>(fAckBunchSize);
         size_t blocksToSend = 0;
+        boost::posix_time::ptime sendTill; // how long to wait for a slow receiver when stopping
 
         while (true) {
             {
@@ -387,7 +388,15 @@ struct UnmanagedRegion
             }
 
             if (blocksToSend > 0) {
-                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0) && !fStopAcks) {
+                while (!fQueue->try_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0)) {
+                    if (fStopAcks) {
+                        // give the receiver up to <fLinger> ms to make room for what is left
+                        if (sendTill.is_not_a_date_time()) {
+                            sendTill = boost::posix_time::microsec_clock::universal_time() + boost::posix_time::milliseconds(fLinger);
+                        }
+                        fQueue->timed_send(blocks.get(), blocksToSend * sizeof(RegionBlock), 0, sendTill);
+                        break;
+                    }
                     // receiver slow? yield and try again...
                     std::this_thread::yield();
                 }
-- 
2.43.0


From a3f9f6d6996270b8190ba217d617b4df44b735a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:24 +0000
Subject: [PATCH 49/51] fix: logged rates are too high by the rate logging
 period

The time since the last line of a channel was taken to be that since the last
look at the counters, which happens every second.
---
 fairmq/Device.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index f31eea9..45dce30 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -676,7 +676,8 @@ void Device::LogSocketRates()
         ++i;
     }
 
-    chrono::time_point<chrono::high_resolution_clock> t0(chrono::high_resolution_clock::now());
+    // time of the last log of each channel
+    vector<chrono::time_point<chrono::high_resolution_clock>> t0(filteredChannels.size(), chrono::high_resolution_clock::now());
     chrono::time_point<chrono::high_resolution_clock> t1;
 
     while (!NewStatePending()) {
@@ -684,8 +685,6 @@ void Device::LogSocketRates()
 
         t1 = chrono::high_resolution_clock::now();
 
-        uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0).count();
-
         i = 0;
 
         for (const auto& channel : filteredChannels) {
@@ -694,6 +693,8 @@ void Device::LogSocketRates()
             if (intervalCounters.at(i) == logIntervals.at(i)) {
                 intervalCounters.at(i) = 0;
 
+                uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0.at(i)).count();
+
                 if (msSinceLastLog > 0) {
                     bytesInNew.at(i) = channel->GetBytesRx();
                     msgInNew.at(i) = channel->GetMessagesRx();
@@ -709,6 +710,7 @@ void Device::LogSocketRates()
                     msgIn.at(i) = msgInNew.at(i);
                     bytesOut.at(i) = bytesOutNew.at(i);
                     msgOut.at(i) = msgOutNew.at(i);
+                    t0.at(i) = t1;
 
                     LOG(info) << setw(static_cast<int>(chanNameLen)) << filteredChannelNames.at(i) << ": "
                               << "in: " << msgPerSecIn.at(i) << " (" << mbPerSecIn.at(i) << " MB) "
@@ -718,8 +720,6 @@ void Device::LogSocketRates()
 
             ++i;
         }
-
-        t0 = t1;
     }
 }
 
-- 
2.43.0


From 6a4564f0bf6bdde642872ea4ce070702df633ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 50/51] fix: the last line of a command's output is lost if it
 has no line break

---
 fairmq/tools/Process.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fairmq/tools/Process.cxx b/fairmq/tools/Process.cxx
index b76adfb..880da41 100644
--- a/fairmq/tools/Process.cxx
+++ b/fairmq/tools/Process.cxx
@@ -127,6 +127,13 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
         } else {
             if (ec == ba::error::eof) {
                 // outputPipe.async_close();
+                if (outputBuffer.size() > 0) { // last line without line break
+                    istream is(&outputBuffer);
+                    string line;
+                    getline(is, line);
+
+                    p.Print(line);
+                }
             } else {
                 p.Print(ec.message());
             }
@@ -147,6 +154,13 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
         } else {
             if (ec == ba::error::eof) {
                 // errorPipe.async_close();
+                if (errorBuffer.size() > 0) { // last line without line break
+                    istream is(&errorBuffer);
+                    string line;
+                    getline(is, line);
+
+                    p.Print(ToString("error: ", line));
+                }
             } else {
                 p.Print(ec.message());
             }
-- 
2.43.0


From d649c4eca4492b90b23fa67f5dafcd2c93653d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:41 +0000
Subject: [PATCH 51/51] fix: a command that ends before it is given its input
 ends the caller

Writing the input raised SIGPIPE.
---
 fairmq/tools/Process.cxx | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/fairmq/tools/Process.cxx b/fairmq/tools/Process.cxx
index 880da41..e287f8e 100644
--- a/fairmq/tools/Process.cxx
+++ b/fairmq/tools/Process.cxx
@@ -44,6 +44,36 @@ class LinePrinter
     const string fPrefix;
 };
 
+// Keeps SIGPIPE from ending this process, if the command does not read its input
+struct BlockSigPipe
+{
+    BlockSigPipe()
+    {
+        sigemptyset(&fSet);
+        sigaddset(&fSet, SIGPIPE);
+        fBlocked = (pthread_sigmask(SIG_BLOCK, &fSet, &fOldSet) == 0 && sigismember(&fOldSet, SIGPIPE) == 0);
+    }
+    BlockSigPipe(const BlockSigPipe&) = delete;
+    BlockSigPipe& operator=(const BlockSigPipe&) = delete;
+    ~BlockSigPipe()
+    {
+        if (fBlocked) {
+            // discard the signal if there was one
+            sigset_t pending;
+            if (sigpending(&pending) == 0 && sigismember(&pending, SIGPIPE) == 1) {
+                int sig = 0;
+                sigwait(&fSet, &sig);
+            }
+            pthread_sigmask(SIG_SETMASK, &fOldSet, nullptr);
+        }
+    }
+
+  private:
+    sigset_t fSet{};
+    sigset_t fOldSet{};
+    bool fBlocked = false;
+};
+
 namespace fair::mq::tools
 {
 
@@ -168,7 +198,10 @@ execute_result execute(const string& cmd, const string& prefix, const string& in
     };
     ba::async_read_until(errorPipe, errorBuffer, delimiter, onStdErr);
 
-    ioc.run();
+    {
+        BlockSigPipe block;
+        ioc.run();
+    }
     c.wait();
 
     result.exit_code = c.exit_code();
-- 
2.43.0

