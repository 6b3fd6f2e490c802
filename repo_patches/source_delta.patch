From 8b19b6da573a24af05a5f1a17033a1fcb9245b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 01/28] fix: a concurrent switchController() call cancelled the
 switch in progress

The switch parameters were reset, and the request lists inspected, before
taking controllers_lock_, so that a second caller cleared do_switch of the
switch being carried out: that one returned success without having started
or stopped anything.
---
 controller_manager/src/controller_manager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index d78571d..3015b1a 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -437,11 +437,6 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
                                          const std::vector<std::string>& stop_controllers,
                                          int strictness, bool start_asap, double timeout)
 {
-  switch_params_ = SwitchParams();
-
-  if (!stop_request_.empty() || !start_request_.empty())
-    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
-
   if (strictness == 0){
     ROS_WARN("Controller Manager: To switch controllers you need to specify a strictness level of controller_manager_msgs::SwitchController::STRICT (%d) or ::BEST_EFFORT (%d). Defaulting to ::BEST_EFFORT.",
              controller_manager_msgs::SwitchController::Request::STRICT,
@@ -458,6 +453,11 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   // lock controllers
   std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
 
+  switch_params_ = SwitchParams();
+
+  if (!stop_request_.empty() || !start_request_.empty())
+    ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
+
   controller_interface::ControllerBase* ct;
   // list all controllers to stop
   for (const auto& controller : stop_controllers)
-- 
2.43.0


From 1a9d207be4a2588d4365f710f3c7473a87b735bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 02/28] fix: best-effort switches acted on the entries they
 were supposed to ignore

With BEST_EFFORT a controller to start that is already running, or one to
stop that is not running, was left out of the resource check and of the lists
given to the hardware, but stayed in the requests handed to the control cycle:
running controllers were started again, told to wait (so no longer updated)
or aborted, and with start_asap a controller started in one cycle was stopped
in the next.
---
 controller_manager/src/controller_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 3015b1a..4f49320 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -547,6 +547,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_stop_list = false;
+        stop_request_.erase(std::find(stop_request_.begin(), stop_request_.end(), controller.c.get()));
       }
     }
 
@@ -558,6 +559,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         return false;
       } else {
         in_start_list = false;
+        start_request_.erase(std::find(start_request_.begin(), start_request_.end(), controller.c.get()));
       }
     }
 
-- 
2.43.0


From ce51f669e964956a422283e3753bcf4010918fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 03/28] fix: a controller named twice in a switch request was
 started or stopped twice

---
 controller_manager/src/controller_manager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 4f49320..95a3ea9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -478,7 +478,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be stopped in list of controllers",
                 controller.c_str());
-      stop_request_.push_back(ct);
+      if (std::find(stop_request_.begin(), stop_request_.end(), ct) == stop_request_.end())
+        stop_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Stop request vector has size %i", (int)stop_request_.size());
@@ -503,7 +504,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     else{
       ROS_DEBUG("Found controller '%s' that needs to be started in list of controllers",
                 controller.c_str());
-      start_request_.push_back(ct);
+      if (std::find(start_request_.begin(), start_request_.end(), ct) == start_request_.end())
+        start_request_.push_back(ct);
     }
   }
   ROS_DEBUG("Start request vector has size %i", (int)start_request_.size());
-- 
2.43.0


From 1e318343d0cb5890f606adaea58a7b414c278511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 04/28] fix: a switch that timed out was still carried out
 later

switchController() gave up and returned failure but left do_switch set, so the
next control cycle switched the hardware for a request reported as failed, and
the controllers themselves were left as they were.
---
 controller_manager/src/controller_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 95a3ea9..fcf86eb 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -628,6 +628,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
         std::this_thread::sleep_for(std::chrono::microseconds(100));
     } else {
         ROS_DEBUG("Timed out while switching controllers. Exiting...");
+        switch_params_.do_switch = false;
         timed_out = true;
         break;
     }
-- 
2.43.0


From a17acfb0b1e932cad949a8340323b055beabac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 05/28] fix: the first control cycle could use a controllers
 list being reclaimed

update() read the current list index and announced it in two steps. As long as
no cycle had announced anything (used_by_realtime_ == -1), a load or unload
publishing the other list in between did not wait for the cycle and cleared the
list the cycle was about to iterate. Check that the announced list is still
current, and make both indices atomic since two threads use them.
---
 .../include/controller_manager/controller_manager.h    |  5 +++--
 controller_manager/src/controller_manager.cpp          | 10 ++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index 471f47a..ecd7c14 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -33,6 +33,7 @@
 
 
 #include "controller_manager/controller_spec.h"
+#include <atomic>
 #include <cstdio>
 #include <map>
 #include <mutex>
@@ -213,9 +214,9 @@ private:
   /// Double-buffered controllers list
   std::vector<ControllerSpec> controllers_lists_[2];
   /// The index of the current controllers list
-  int current_controllers_list_ = {0};
+  std::atomic<int> current_controllers_list_ = {0};
   /// The index of the controllers list being used in the real-time thread.
-  int used_by_realtime_ = {-1};
+  std::atomic<int> used_by_realtime_ = {-1};
   /*\}*/
 
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index fcf86eb..7244dc0 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -65,8 +65,14 @@ ControllerManager::ControllerManager(hardware_interface::RobotHW *robot_hw, cons
 // Must be realtime safe.
 void ControllerManager::update(const ros::Time& time, const ros::Duration& period, bool reset_controllers)
 {
-  used_by_realtime_ = current_controllers_list_;
-  
+  // Announce the list used by this cycle. It must still be the current one once announced: before the first cycle
+  // nothing keeps the non-realtime thread from replacing and clearing it in between.
+  do
+  {
+    used_by_realtime_ = current_controllers_list_.load();
+  }
+  while (used_by_realtime_ != current_controllers_list_);
+
   // Restart all running controllers if motors are re-enabled
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
-- 
2.43.0


From e39fe115758f5fe60974c79a43e60549a1215359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 06/28] fix: shutdown made pending controller manager calls
 report success and reclaim lists in use

The wait loops stopped waiting as soon as ros::ok() turned false and carried on
as if the control cycle had answered; the checks inside the loops that were
meant to handle this could never be reached. A switch that had not been carried
out was reported as done, and loads and unloads cleared the controllers list a
cycle could still be using.
---
 controller_manager/src/controller_manager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 7244dc0..bb405bf 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -241,7 +241,7 @@ bool ControllerManager::loadController(const std::string& name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -355,7 +355,7 @@ bool ControllerManager::loadController(const std::string& name)
   // Destroys the old controllers list when the realtime thread is finished with it.
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -379,7 +379,7 @@ bool ControllerManager::unloadController(const std::string &name)
 
   // get reference to controller list
   int free_controllers_list = (current_controllers_list_ + 1) % 2;
-  while (ros::ok() && free_controllers_list == used_by_realtime_)
+  while (free_controllers_list == used_by_realtime_)
   {
     if (!ros::ok())
     {
@@ -422,7 +422,7 @@ bool ControllerManager::unloadController(const std::string &name)
   ROS_DEBUG("Realtime switches over to new controller list");
   int former_current_controllers_list_ = current_controllers_list_;
   current_controllers_list_ = free_controllers_list;
-  while (ros::ok() && used_by_realtime_ == former_current_controllers_list_)
+  while (used_by_realtime_ == former_current_controllers_list_)
   {
     if (!ros::ok())
     {
@@ -623,7 +623,7 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   ROS_DEBUG("Request atomic controller switch from realtime loop");
   auto start_time = std::chrono::system_clock::now();
   bool timed_out = false;
-  while (ros::ok() && switch_params_.do_switch)
+  while (switch_params_.do_switch)
   {
     if (!ros::ok())
     {
-- 
2.43.0


From b7dd4ec5abce1803afc85c1dfc453931d2e5357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 07/28] fix: a controller restarted by a reset cycle could be
 taken for a stopped one

While update(..., reset_controllers = true) restarts the running controllers they
were briefly in the stopped state, outside any lock. A request evaluated at that
moment could start a conflicting controller, or unload one about to run again.
---
 controller_manager/src/controller_manager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index bb405bf..5a0c345 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -73,12 +73,13 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
   }
   while (used_by_realtime_ != current_controllers_list_);
 
-  // Restart all running controllers if motors are re-enabled
+  // Restart all running controllers if motors are re-enabled. They stay running throughout: a request looking at them
+  // at this very moment must not take them for stopped controllers that could be unloaded or started along with others.
   if (reset_controllers){
     for (const auto& controller : controllers_lists_[used_by_realtime_]){
       if (controller.c->isRunning()){
-        controller.c->stopRequest(time);
-        controller.c->startRequest(time);
+        controller.c->stopping(time);
+        controller.c->starting(time);
       }
     }
   }
-- 
2.43.0


From c2eeb9936f90e47371bd1124fdf4810b448e43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 08/28] fix: a switch giving up cleared its request lists under
 the control cycle working on them

---
 .../include/controller_manager/controller_manager.h    |  4 +++-
 controller_manager/src/controller_manager.cpp          | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/controller_manager/include/controller_manager/controller_manager.h b/controller_manager/include/controller_manager/controller_manager.h
index ecd7c14..613e089 100644
--- a/controller_manager/include/controller_manager/controller_manager.h
+++ b/controller_manager/include/controller_manager/controller_manager.h
@@ -191,7 +191,7 @@ private:
 
   struct SwitchParams
   {
-    bool do_switch      = {false};
+    std::atomic<bool> do_switch = {false};
     bool started        = {false};
     ros::Time init_time = {ros::TIME_MAX};
 
@@ -202,6 +202,8 @@ private:
   };
 
   SwitchParams switch_params_;
+  /// True while the real-time thread may be working on a switch request.
+  std::atomic<bool> managing_switch_ = {false};
 
   /*\}*/
 
diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 5a0c345..38ccad9 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -90,10 +90,12 @@ void ControllerManager::update(const ros::Time& time, const ros::Duration& perio
     controller.c->updateRequest(time, period);
 
   // there are controllers to start/stop
+  managing_switch_ = true;
   if (switch_params_.do_switch)
   {
     manageSwitch(time);
   }
+  managing_switch_ = false;
 }
 
 controller_interface::ControllerBase* ControllerManager::getControllerByName(const std::string& name)
@@ -460,7 +462,8 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
   // lock controllers
   std::lock_guard<std::recursive_mutex> guard(controllers_lock_);
 
-  switch_params_ = SwitchParams();
+  switch_params_.do_switch = false;
+  switch_params_.started = false;
 
   if (!stop_request_.empty() || !start_request_.empty())
     ROS_FATAL("The internal stop and start request lists are not empty at the beginning of the swithController() call. This should not happen.");
@@ -636,6 +639,11 @@ bool ControllerManager::switchController(const std::vector<std::string>& start_c
     } else {
         ROS_DEBUG("Timed out while switching controllers. Exiting...");
         switch_params_.do_switch = false;
+        // a control cycle may be working on the request right now: leave it alone until that cycle is through
+        while (managing_switch_)
+        {
+          std::this_thread::sleep_for(std::chrono::microseconds(100));
+        }
         timed_out = true;
         break;
     }
-- 
2.43.0


From 7fae8e96577e539d79587dc792512c73c083bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 09/28] fix: reloading controller libraries could be overtaken
 by a load and abort the process

---
 controller_manager/src/controller_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controller_manager/src/controller_manager.cpp b/controller_manager/src/controller_manager.cpp
index 38ccad9..159d578 100644
--- a/controller_manager/src/controller_manager.cpp
+++ b/controller_manager/src/controller_manager.cpp
@@ -668,6 +668,9 @@ bool ControllerManager::reloadControllerLibrariesSrv(
   std::lock_guard<std::mutex> guard(services_lock_);
   ROS_DEBUG("reload libraries service locked");
 
+  // lock controllers, so that none is loaded until the libraries are reloaded
+  std::lock_guard<std::recursive_mutex> controller_guard(controllers_lock_);
+
   // only reload libraries if no controllers are running
   std::vector<std::string> controllers;
   getControllerNames(controllers);
-- 
2.43.0


From 129850bc54c576341bdc75866bbb25143469b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 10/28] fix: a combined interface kept serving parts that had
 been replaced

Registering an interface again replaces it, so the number of parts does not
tell whether a cached combined interface is still made of the right ones.
---
 .../internal/interface_manager.h                  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hardware_interface/include/hardware_interface/internal/interface_manager.h b/hardware_interface/include/hardware_interface/internal/interface_manager.h
index f057966..81fa059 100644
--- a/hardware_interface/include/hardware_interface/internal/interface_manager.h
+++ b/hardware_interface/include/hardware_interface/internal/interface_manager.h
@@ -214,11 +214,10 @@ public:
     // combined interface, or return one already constructed
     T* iface_combo;
     InterfaceMap::iterator it_combo = interfaces_combo_.find(type_name);
-    if(it_combo != interfaces_combo_.end() &&
-        num_ifaces_registered_[type_name] == iface_list.size()) {
-      // there exists a combined interface with the same number of interfaces combined
-      // (since you cannot unregister interfaces, this will be guaranteed to be the
-      //  same interfaces from previous calls)
+    const std::vector<void*> ifaces(iface_list.begin(), iface_list.end());
+    if(it_combo != interfaces_combo_.end() && ifaces_combined_[type_name] == ifaces) {
+      // there exists a combined interface made of the very same interfaces
+      // (registering an interface again replaces it, so their number alone would not tell)
       iface_combo = static_cast<T*>(it_combo->second);
     } else {
       // no existing combined interface
@@ -228,7 +227,7 @@ public:
         internal::CheckIsResourceManager<T>::callConcatManagers(iface_list, iface_combo);
         // save the combined interface for if this is called again
         interfaces_combo_[type_name] = iface_combo;
-        num_ifaces_registered_[type_name] = iface_list.size();
+        ifaces_combined_[type_name] = ifaces;
       } else {
         // Multiple interfaces of the same type which are not ResourceManager cannot be combined, so return
         // nullptr
@@ -301,13 +300,13 @@ public:
 protected:
   typedef std::map<std::string, void*> InterfaceMap;
   typedef std::vector<InterfaceManager*> InterfaceManagerVector;
-  typedef std::map<std::string, size_t> SizeMap;
+  typedef std::map<std::string, std::vector<void*> > InterfaceListMap;
   typedef std::map<std::string, std::vector<std::string> > ResourceMap;
 
   InterfaceMap interfaces_;
   InterfaceMap interfaces_combo_;
   InterfaceManagerVector interface_managers_;
-  SizeMap num_ifaces_registered_;
+  InterfaceListMap ifaces_combined_;
   std::vector<ResourceManagerBase*> interface_destruction_list_;
   /// This will allow us to check the resources based on the demangled type name of the interface
   ResourceMap resources_;
-- 
2.43.0


From 7e00f31be1afb193b32948e00798f2a528007bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 11/28] fix: a combined robot reported switches as done
 whatever its parts said

CombinedRobotHW inherited switchResult() from RobotHW, which always answers
DONE, so switches still ongoing or failed in a part were taken for done.
---
 .../combined_robot_hw/combined_robot_hw.h     | 15 +++++++-
 combined_robot_hw/src/combined_robot_hw.cpp   | 37 ++++++++++++++++++-
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
index d1e1d34..abded06 100644
--- a/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
+++ b/combined_robot_hw/include/combined_robot_hw/combined_robot_hw.h
@@ -81,6 +81,19 @@ public:
   void doSwitch(const std::list<hardware_interface::ControllerInfo>& start_list,
                 const std::list<hardware_interface::ControllerInfo>& stop_list) override;
 
+  /** \brief Return (in realtime) the state of the last doSwitch().
+   *
+   * This is \c ERROR if any of the combined RobotHW objects reports an error, otherwise \c ONGOING if any of them is
+   * still switching, and \c DONE only once all of them are done.
+   */
+  SwitchState switchResult() const override;
+
+  /** \brief Return (in realtime) the state of the last doSwitch() for a given controller.
+   *
+   * Only the RobotHW objects the controller was passed to in doSwitch() are taken into account.
+   */
+  SwitchState switchResult(const hardware_interface::ControllerInfo& controller) const override;
+
   /**
    * Reads data from the robot HW
    *
@@ -110,7 +123,7 @@ protected:
    */
   void filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                             std::list<hardware_interface::ControllerInfo>& filtered_list,
-                            hardware_interface::RobotHWSharedPtr robot_hw);
+                            hardware_interface::RobotHWSharedPtr robot_hw) const;
 };
 
 }
diff --git a/combined_robot_hw/src/combined_robot_hw.cpp b/combined_robot_hw/src/combined_robot_hw.cpp
index 24b24f4..68a5fbe 100644
--- a/combined_robot_hw/src/combined_robot_hw.cpp
+++ b/combined_robot_hw/src/combined_robot_hw.cpp
@@ -89,6 +89,41 @@ namespace combined_robot_hw
     }
   }
 
+  hardware_interface::RobotHW::SwitchState CombinedRobotHW::switchResult() const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      const SwitchState state = robot_hw->switchResult();
+      if (state == SwitchState::ERROR)
+        return state;
+      if (state == SwitchState::ONGOING)
+        result = state;
+    }
+    return result;
+  }
+
+  hardware_interface::RobotHW::SwitchState
+  CombinedRobotHW::switchResult(const hardware_interface::ControllerInfo& controller) const
+  {
+    SwitchState result = SwitchState::DONE;
+    for (const auto& robot_hw : robot_hw_list_)
+    {
+      // Only ask the RobotHW objects which are concerned with this controller
+      std::list<hardware_interface::ControllerInfo> filtered_list;
+      filterControllerList({controller}, filtered_list, robot_hw);
+      if (filtered_list.empty())
+        continue;
+
+      const SwitchState state = robot_hw->switchResult(filtered_list.front());
+      if (state == SwitchState::ERROR)
+        return state;
+      if (state == SwitchState::ONGOING)
+        result = state;
+    }
+    return result;
+  }
+
   bool CombinedRobotHW::loadRobotHW(const std::string& name)
   {
     ROS_DEBUG("Will load robot HW '%s'", name.c_str());
@@ -197,7 +232,7 @@ namespace combined_robot_hw
 
   void CombinedRobotHW::filterControllerList(const std::list<hardware_interface::ControllerInfo>& list,
                                              std::list<hardware_interface::ControllerInfo>& filtered_list,
-                                             hardware_interface::RobotHWSharedPtr robot_hw)
+                                             hardware_interface::RobotHWSharedPtr robot_hw) const
   {
     filtered_list.clear();
     for (const auto& controller : list)
-- 
2.43.0


From b1a3b7a1c4fae97d5c0af610bfc10f812e9f2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 12/28] fix: velocity saturation must survive a NaN command

The handle remembered the NaN as its previous command, which made both
acceleration bounds NaN and let every later command through unlimited.
---
 .../include/joint_limits_interface/joint_limits_interface.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
index c4f0c90..bbb9d4c 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_interface.h
@@ -450,8 +450,8 @@ public:
                                     vel_high);
     jh_.setCommand(vel_cmd);
 
-    // Cache variables
-    prev_cmd_ = jh_.getCommand();
+    // Cache variables. Remembering a NaN command would disable the limits of all later commands
+    if (!std::isnan(vel_cmd)) {prev_cmd_ = vel_cmd;}
   }
 
 private:
-- 
2.43.0


From 1f83c75538d1badb2271522f3d9b9125d56204a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 13/28] fix: soft limit parameters of the wrong type must not
 be half applied

A specification with a value that is not a number was reported as found
and overwrote only the other soft limits.
---
 .../joint_limits_interface/joint_limits_rosparam.h  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
index fae269a..366d1b1 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_rosparam.h
@@ -216,12 +216,15 @@ inline bool getSoftJointLimits(const std::string& joint_name, const ros::NodeHan
   bool has_soft_limits;
   if(limits_nh.getParam("has_soft_limits", has_soft_limits))
   {
-    if(has_soft_limits && limits_nh.hasParam("k_position") && limits_nh.hasParam("k_velocity") && limits_nh.hasParam("soft_lower_limit") && limits_nh.hasParam("soft_upper_limit"))
+    // All values must be present and of the right type, otherwise the specification is ignored as a whole
+    SoftJointLimits specified;
+    if(has_soft_limits &&
+       limits_nh.getParam("k_position", specified.k_position) &&
+       limits_nh.getParam("k_velocity", specified.k_velocity) &&
+       limits_nh.getParam("soft_lower_limit", specified.min_position) &&
+       limits_nh.getParam("soft_upper_limit", specified.max_position))
     {
-      limits_nh.getParam("k_position", soft_limits.k_position);
-      limits_nh.getParam("k_velocity", soft_limits.k_velocity);
-      limits_nh.getParam("soft_lower_limit", soft_limits.min_position);
-      limits_nh.getParam("soft_upper_limit", soft_limits.max_position);
+      soft_limits = specified;
       return true;
     }
   }
-- 
2.43.0


From 176679e7880799d7b587cfc31c895bfc22b696c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:36 +0000
Subject: [PATCH 14/28] fix: URDF limits must not switch off acceleration
 limits

URDF joints do not specify acceleration; values they do not specify are
documented to remain unchanged.
---
 .../include/joint_limits_interface/joint_limits_urdf.h          | 2 --
 1 file changed, 2 deletions(-)

diff --git a/joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h b/joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h
index 2471bfd..0f5a767 100644
--- a/joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h
+++ b/joint_limits_interface/include/joint_limits_interface/joint_limits_urdf.h
@@ -67,8 +67,6 @@ inline bool getJointLimits(urdf::JointConstSharedPtr urdf_joint, JointLimits& li
   limits.has_velocity_limits = true;
   limits.max_velocity = urdf_joint->limits->velocity;
 
-  limits.has_acceleration_limits = false;
-
   limits.has_effort_limits = true;
   limits.max_effort = urdf_joint->limits->effort;
 
-- 
2.43.0


From dd64b6e3400c31ca58d59cfb1cebd812f537c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 15/28] fix: differential absolute position map must not
 require position data

Its precondition check dereferenced the actuator position vector, which
the map does not use and which may be empty.
---
 .../include/transmission_interface/differential_transmission.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/differential_transmission.h b/transmission_interface/include/transmission_interface/differential_transmission.h
index e2c1c24..939d61a 100644
--- a/transmission_interface/include/transmission_interface/differential_transmission.h
+++ b/transmission_interface/include/transmission_interface/differential_transmission.h
@@ -309,7 +309,7 @@ inline void DifferentialTransmission::actuatorToJointAbsolutePosition(const Actu
                                                                             JointData&    jnt_data)
 {
   assert(numActuators() == act_data.absolute_position.size() && numJoints() == jnt_data.absolute_position.size());
-  assert(act_data.position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
+  assert(act_data.absolute_position[0] && act_data.absolute_position[1] && jnt_data.absolute_position[0] && jnt_data.absolute_position[1]);
 
   const std::vector<double>& ar = act_reduction_;
   const std::vector<double>& jr = jnt_reduction_;
-- 
2.43.0


From 47a5283487d4a6a32136f984f247da152fd4c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 16/28] fix: transmission handles must check the size of
 actuator torque sensor data

The absolute position data was checked twice instead, so torque sensor
vectors of the wrong size were accepted and read out of bounds.
---
 .../include/transmission_interface/transmission_interface.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transmission_interface/include/transmission_interface/transmission_interface.h b/transmission_interface/include/transmission_interface/transmission_interface.h
index 0b3b87a..9697cf2 100644
--- a/transmission_interface/include/transmission_interface/transmission_interface.h
+++ b/transmission_interface/include/transmission_interface/transmission_interface.h
@@ -106,7 +106,7 @@ protected:
     {
       throw TransmissionInterfaceException("Actuator absolute position data size does not match transmission.");
     }
-    if (!actuator_data.absolute_position.empty() && actuator_data.absolute_position.size() != transmission_->numActuators())
+    if (!actuator_data.torque_sensor.empty() && actuator_data.torque_sensor.size() != transmission_->numActuators())
     {
       throw TransmissionInterfaceException("Actuator torque sensor data size does not match transmission.");
     }
-- 
2.43.0


From 1b317090a5741519c97a43ddba0c9e8f8799850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 17/28] fix: TransmissionParser: do not dereference the root of
 a robot description that has none

---
 transmission_interface/src/transmission_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transmission_interface/src/transmission_parser.cpp b/transmission_interface/src/transmission_parser.cpp
index 54835a3..81ee477 100644
--- a/transmission_interface/src/transmission_parser.cpp
+++ b/transmission_interface/src/transmission_parser.cpp
@@ -51,6 +51,11 @@ bool TransmissionParser::parse(const std::string& urdf, std::vector<Transmission
 
   // Find joints in transmission tags
   TiXmlElement *root = doc.RootElement();
+  if (!root)
+  {
+    ROS_ERROR("Can't parse transmissions. The robot description has no root element.");
+    return false;
+  }
 
   // Constructs the transmissions by parsing custom xml.
   TiXmlElement *trans_it = nullptr;
-- 
2.43.0


From 40d0ee43f532c6e20e938a0c4dca92ef429d1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 18/28] fix: TransmissionLoader: reject reductions and offsets
 that only begin with a number

---
 .../src/transmission_loader.cpp               | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/transmission_loader.cpp b/transmission_interface/src/transmission_loader.cpp
index 188ec82..5192d0d 100644
--- a/transmission_interface/src/transmission_loader.cpp
+++ b/transmission_interface/src/transmission_loader.cpp
@@ -25,6 +25,10 @@
 // POSSIBILITY OF SUCH DAMAGE.
 //////////////////////////////////////////////////////////////////////////////
 
+// C++ standard
+#include <stdexcept>
+#include <string>
+
 // ros_control
 #include <transmission_interface/transmission_loader.h>
 
@@ -32,6 +36,22 @@
 namespace transmission_interface
 {
 
+namespace
+{
+
+// Converts a whole element text to a number; throws std::logic_error when it is missing or anything but a number
+double toDouble(const char* text)
+{
+  if (!text) {throw std::invalid_argument("empty element");}
+  const std::string str(text);
+  std::size_t end = 0;
+  const double value = std::stod(str, &end);
+  if (str.find_first_not_of(" \t\r\n", end) != std::string::npos) {throw std::invalid_argument("not a number: " + str);}
+  return value;
+}
+
+} // namespace
+
 bool
 TransmissionLoader::getActuatorReduction(const TiXmlElement& parent_el,
                                          const std::string&  actuator_name,
@@ -58,7 +78,7 @@ TransmissionLoader::getActuatorReduction(const TiXmlElement& parent_el,
   }
 
   // Cast to number
-  try {reduction = std::stod(reduction_el->GetText());}
+  try {reduction = toDouble(reduction_el->GetText());}
   catch (const std::logic_error&) // Captures both std::invalid_argument and std::out_of_range
   {
     ROS_ERROR_STREAM_NAMED("parser", "Actuator '" << actuator_name << "' of transmission '" << transmission_name <<
@@ -94,7 +114,7 @@ TransmissionLoader::getJointReduction(const TiXmlElement& parent_el,
   }
 
   // Cast to number
-  try {reduction = std::stod(reduction_el->GetText());}
+  try {reduction = toDouble(reduction_el->GetText());}
   catch (const std::logic_error&) // Captures both std::invalid_argument and std::out_of_range
   {
     ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
@@ -130,7 +150,7 @@ TransmissionLoader::getJointOffset(const TiXmlElement& parent_el,
   }
 
   // Cast to number
-  try {offset = std::stod(offset_el->GetText());}
+  try {offset = toDouble(offset_el->GetText());}
   catch (const std::logic_error&) // Captures both std::invalid_argument and std::out_of_range
   {
     ROS_ERROR_STREAM_NAMED("parser", "Joint '" << joint_name << "' of transmission '" << transmission_name <<
-- 
2.43.0


From df75f3259fdc6b53dd6d13895d627321dde8782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 19/28] fix: joint command handles must use the joint states of
 the robot, which may have its own JointStateInterface

---
 transmission_interface/src/effort_joint_interface_provider.cpp  | 2 +-
 .../src/position_joint_interface_provider.cpp                   | 2 +-
 .../src/velocity_joint_interface_provider.cpp                   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transmission_interface/src/effort_joint_interface_provider.cpp b/transmission_interface/src/effort_joint_interface_provider.cpp
index b9ab5b9..9cf7f60 100644
--- a/transmission_interface/src/effort_joint_interface_provider.cpp
+++ b/transmission_interface/src/effort_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool EffortJointInterfaceProvider::updateJointInterfaces(const TransmissionInfo&
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.effort_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/position_joint_interface_provider.cpp b/transmission_interface/src/position_joint_interface_provider.cpp
index d032662..1592bec 100644
--- a/transmission_interface/src/position_joint_interface_provider.cpp
+++ b/transmission_interface/src/position_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool PositionJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.position_cmd);
     interface.registerHandle(handle);
   }
diff --git a/transmission_interface/src/velocity_joint_interface_provider.cpp b/transmission_interface/src/velocity_joint_interface_provider.cpp
index a3cca76..fc4df29 100644
--- a/transmission_interface/src/velocity_joint_interface_provider.cpp
+++ b/transmission_interface/src/velocity_joint_interface_provider.cpp
@@ -65,7 +65,7 @@ bool VelocityJointInterfaceProvider::updateJointInterfaces(const TransmissionInf
     // Update hardware interface
     using hardware_interface::JointHandle;
     RawJointData& raw_joint_data = raw_joint_data_map[name];
-    JointHandle handle(joint_interfaces.joint_state_interface.getHandle(joint_info.name_),
+    JointHandle handle(robot_hw->get<hardware_interface::JointStateInterface>()->getHandle(joint_info.name_),
                        &raw_joint_data.velocity_cmd);
     interface.registerHandle(handle);
   }
-- 
2.43.0


From 113070d10306885f6aafed59426ca373b5161d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 20/28] fix: spawner reads controller files with any PyYAML

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index af1dfaf..c457157 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -186,7 +186,7 @@ def main():
             # load yaml file onto the parameter server, using the namespace specified in the yaml file
             rosparam.set_param("",open(name))
             # list the controllers to be loaded
-            name_yaml = yaml.load(open(name))
+            name_yaml = yaml.safe_load(open(name))
             for controller in name_yaml:
                 controllers.append(controller)
         else:
-- 
2.43.0


From def16a498cb87a9c9fd809c35d2c08c59ebf1fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 21/28] fix: spawner waits for its topic without a timeout

---
 controller_manager/scripts/spawner | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index c457157..55c6bf0 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -167,7 +167,7 @@ def main():
             if rospy.is_shutdown():
                 return
             if not warned_about_not_hearing_anything:
-                if time.time() - started_waiting > timeout:
+                if timeout is not None and time.time() - started_waiting > timeout:
                     warned_about_not_hearing_anything = True
                     rospy.logwarn("Controller Spawner hasn't heard anything from its \"wait for\" topic (%s)" % \
                                       wait_for_topic)
-- 
2.43.0


From f604281c26118fdb5182fc86406ff58a5dba512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 22/28] fix: spawner stops waiting and loading once it is shut
 down

---
 controller_manager/scripts/spawner | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index 55c6bf0..a931d7d 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -136,6 +136,8 @@ def main():
             rospy.loginfo("Controller Spawner: Waiting for service "+unload_controller_service)
             rospy.wait_for_service(unload_controller_service, timeout=timeout)
         except rospy.exceptions.ROSException:
+            if rospy.is_shutdown():
+                return
             # If we use sim time, wait for the clock to be published
             if rospy.get_param('/use_sim_time', False) and rospy.get_rostime() == rospy.Time(0):
                 rospy.loginfo("Waiting for /clock to be available...")
@@ -195,6 +197,9 @@ def main():
     # load controllers
     for name in controllers:
         rospy.loginfo("Loading controller: "+name)
+        if rospy.is_shutdown():
+            # what is loaded from now on would not be unloaded any more
+            return
         resp = load_controller(name)
         if resp.ok != 0:
             loaded.append(name)
-- 
2.43.0


From 3064895e4d4101663a50a3007c0b9ebcea1748f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 23/28] fix: spawner takes down its running controllers when
 others are already stopped

---
 controller_manager/scripts/spawner | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller_manager/scripts/spawner b/controller_manager/scripts/spawner
index a931d7d..bf5a492 100755
--- a/controller_manager/scripts/spawner
+++ b/controller_manager/scripts/spawner
@@ -62,7 +62,8 @@ def shutdown():
         switch_controller = rospy.ServiceProxy(switch_controller_service, SwitchController)
 
         rospy.loginfo("Stopping all controllers...");
-        switch_controller([], loaded, SwitchControllerRequest.STRICT, False, 0.0)
+        # some of them may not be running any more
+        switch_controller([], loaded, SwitchControllerRequest.BEST_EFFORT, False, 0.0)
         rospy.loginfo("Unloading all loaded controllers...");
         for name in reversed(loaded):
             rospy.logout("Trying to unload %s" % name)
-- 
2.43.0


From d229067af39e794eaa85024c962bae08e70806ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 24/28] fix: reloading libraries reports controllers that are
 not restored

---
 .../controller_manager_interface.py           | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/controller_manager/src/controller_manager/controller_manager_interface.py b/controller_manager/src/controller_manager/controller_manager_interface.py
index df5ff79..049a2af 100644
--- a/controller_manager/src/controller_manager/controller_manager_interface.py
+++ b/controller_manager/src/controller_manager/controller_manager_interface.py
@@ -33,13 +33,22 @@ def reload_libraries(force_kill, restore = False):
         result = False
 
     if restore:
+        restored = True
         for c in originally.controller:
-            load_srv(c.name)
+            if not load_srv(c.name).ok:
+                print("Error when loading \'" + c.name + "\'")
+                restored = False
         to_start = [c.name for c in originally.controller if c.state == 'running']
-        switch_srv(start_controllers=to_start,
-                   stop_controllers=[],
-                   strictness=SwitchControllerRequest.BEST_EFFORT)
-        print("Controllers restored to original state")
+        resp = switch_srv(start_controllers=to_start,
+                          stop_controllers=[],
+                          strictness=SwitchControllerRequest.BEST_EFFORT)
+        if not resp.ok:
+            print("Error when starting {}".format(to_start))
+            restored = False
+        if restored:
+            print("Controllers restored to original state")
+        else:
+            result = False
     return result
 
 
-- 
2.43.0


From 7adff636fcd2c6ace571f12ef492eb068f6aa8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 25/28] fix: find controller managers by whole service names

---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index c41a5ff..94d97f6 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -147,8 +147,8 @@ def _sloppy_get_controller_managers(namespace):
     ns_list = []
     for srv_name in srv_list:
         match_str = '/' + _LIST_CONTROLLERS_STR
-        if match_str in srv_name:
-            ns = srv_name.split(match_str)[0]
+        if srv_name.endswith(match_str):
+            ns = srv_name[:-len(match_str)]
             if ns == '':
                 # controller manager services live in root namespace
                 # unlikely, but still possible
-- 
2.43.0


From 486349e4abcccb2c99c1b8f1dec2fed7125d77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 26/28] fix: filter controllers by an empty list of resources

---
 controller_manager_msgs/src/controller_manager_msgs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller_manager_msgs/src/controller_manager_msgs/utils.py b/controller_manager_msgs/src/controller_manager_msgs/utils.py
index 94d97f6..350f7c3 100644
--- a/controller_manager_msgs/src/controller_manager_msgs/utils.py
+++ b/controller_manager_msgs/src/controller_manager_msgs/utils.py
@@ -366,8 +366,8 @@ def filter_by_resources(ctrl_list,
         for resource_set in ctrl.claimed_resources:
             if (hardware_interface is None or
                 hardware_interface == resource_set.hardware_interface):
+                add_ctrl = not match_any  # Initial flag value
                 for res in resources:
-                    add_ctrl = not match_any  # Initial flag value
                     if res in resource_set.resources:
                         if match_any:  # One hit: enough to accept controller
                             add_ctrl = True
-- 
2.43.0


From 1a9c0df396356d12ec67fbce3413d761152f79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 27/28] fix: show controllers that are waiting or aborted in
 the graphical front end

The controller manager also reports the states 'waiting' and 'aborted', which
had no icon: drawing their row raised a KeyError.  An aborted controller can
be started again or unloaded like a stopped one.
---
 .../src/rqt_controller_manager/controller_manager.py      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 97448f7..6a092ea 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -103,7 +103,9 @@ class ControllerManager(Plugin):
         self._icons = {'running': QIcon(path + '/resource/led_green.png'),
                        'stopped': QIcon(path + '/resource/led_red.png'),
                        'uninitialized': QIcon(path + '/resource/led_off.png'),
-                       'initialized': QIcon(path + '/resource/led_red.png')}
+                       'initialized': QIcon(path + '/resource/led_red.png'),
+                       'waiting': QIcon(path + '/resource/led_red.png'),
+                       'aborted': QIcon(path + '/resource/led_red.png')}
 
         # Controllers display
         table_view = self._widget.table_view
@@ -252,7 +254,7 @@ class ControllerManager(Plugin):
             action_stop = menu.addAction(self._icons['stopped'], 'Stop')
             action_kill = menu.addAction(self._icons['uninitialized'],
                                          'Stop and Unload')
-        elif ctrl.state == 'stopped':
+        elif ctrl.state in ('stopped', 'aborted'):
             action_start = menu.addAction(self._icons['running'],
                                           'Start again')
             action_unload = menu.addAction(self._icons['uninitialized'],
@@ -275,7 +277,7 @@ class ControllerManager(Plugin):
             elif action is action_kill:
                 self._stop_controller(ctrl.name)
                 self._unload_controller(ctrl.name)
-        elif ctrl.state == 'stopped' or ctrl.state == 'initialized':
+        elif ctrl.state in ('stopped', 'initialized', 'aborted'):
             if action is action_start:
                 self._start_controller(ctrl.name)
             elif action is action_unload:
-- 
2.43.0


From 101252a4c6996afede36446566684ceb1b301b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 28/28] fix: keep commanding a controller manager that has
 restarted

The graphical front end used persistent services to load, unload and switch
controllers.  Such a connection stays broken once the manager at its other end
is gone, and a manager that crashes and is respawned is not noticed, so every
later request failed until another manager was selected.
---
 .../rqt_controller_manager/controller_manager.py  | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
index 6a092ea..74668a6 100644
--- a/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
+++ b/rqt_controller_manager/src/rqt_controller_manager/controller_manager.py
@@ -180,21 +180,18 @@ class ControllerManager(Plugin):
 
     def _set_cm_services(self, cm_ns):
         if cm_ns:
-            # NOTE: Persistent services are used for performance reasons.
-            # If the controller manager dies, we detect it and disconnect from
-            # it anyway
+            # NOTE: Services are not persistent: a persistent connection never
+            # recovers from a controller manager that dies and comes back
+            # before we detect it
             load_srv_name = _append_ns(cm_ns, 'load_controller')
             self._load_srv = rospy.ServiceProxy(load_srv_name,
-                                                LoadController,
-                                                persistent=True)
+                                                LoadController)
             unload_srv_name = _append_ns(cm_ns, 'unload_controller')
             self._unload_srv = rospy.ServiceProxy(unload_srv_name,
-                                                  UnloadController,
-                                                  persistent=True)
+                                                  UnloadController)
             switch_srv_name = _append_ns(cm_ns, 'switch_controller')
             self._switch_srv = rospy.ServiceProxy(switch_srv_name,
-                                                  SwitchController,
-                                                  persistent=True)
+                                                  SwitchController)
         else:
             self._load_srv = None
             self._unload_srv = None
-- 
2.43.0

