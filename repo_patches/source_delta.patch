From 6d40648ffba50161b438a6e2cfac60869474f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 01/83] fix: C++ engine no longer counts aborted trips as
 completed trips

---
 uxsim/trafficpp/traffi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 8f3618e..57d474f 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -885,8 +885,10 @@ void Vehicle::update(Vehicle *snap_leader){
  */
 void Vehicle::end_trip(){
     state = vsEND;
-    // Per-link completed-trip counter (end_trip runs in this link's exclusive context).
-    w->link_trips_completed[link->id] += 1.0;
+    // Per-link completed-trip counter (end_trip runs in this link's exclusive context). Aborted trips are not completed.
+    if (!flag_trip_aborted){
+        w->link_trips_completed[link->id] += 1.0;
+    }
     link->departure_curve[w->timestep] += w->delta_n;
 
     // Record traveltime_real event (lazily materialized on read, matching Python's traveltime_actual slice update)
-- 
2.43.0


From c9cfa26b3480df3c5068ae289a96a235800b6ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:16 +0000
Subject: [PATCH 02/83] fix: CppWorld.addVehicle always creates exactly one
 vehicle, at the timestep Python mode uses

---
 uxsim/uxsim_cpp_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6e3009a..42b8666 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -936,7 +936,7 @@ class CppWorld:
         orig_name = orig.name if hasattr(orig, 'name') else str(orig)
         dest_name = dest.name if hasattr(dest, 'name') else str(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
-        t = departure_time * self.DELTAT if dep_is_ts else float(departure_time)
+        dep_ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
 
         # Validate custom vehicle name before creating the C++ vehicle
         name = kwargs.get('name')
@@ -957,8 +957,9 @@ class CppWorld:
             cpp_links_pref.append(lname)
 
         n_before = self._cpp_world.vehicle_count
+        # The period covers exactly one timestep and 1.5 platoons are requested in it (the remainder is discarded), so that one platoon is created regardless of floating-point rounding.
         _add_demand(self._cpp_world, orig_name, dest_name,
-                   float(t), float(t + self.DELTAT), float(self.DELTAN / self.DELTAT), cpp_links_pref)
+                   float((dep_ts + 0.25) * self.DELTAT), float((dep_ts + 1.25) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
         links_avoid = kwargs.get('links_avoid', [])
-- 
2.43.0


From 35a16485bf0861f43fd1fe43f5f791bf8bba6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 03/83] fix: signal_offset longer than the cycle no longer
 prolongs the first phase

---
 uxsim/trafficpp/traffi.cpp | 3 +++
 uxsim/uxsim.py             | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 57d474f..7a32631 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -69,6 +69,9 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
 
     if (this->signal_intervals.size() > 1 || (this->signal_intervals.size() == 1 && this->signal_intervals[0] != 0)){
         double offset = cycle_length - this->signal_offset;
+        if (offset < 0 && cycle_length > 0){ // signal_offset is longer than the cycle
+            offset = std::fmod(offset, cycle_length) + cycle_length;
+        }
         int i = 0;
         while (true){
             if (offset < this->signal_intervals[i]){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 6dcf19e..4474e69 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -100,6 +100,8 @@ class Node:
         offset = s.cycle_length-s.signal_offset
 
         if s.signal != [0]:
+            if offset < 0: # signal_offset is longer than the cycle
+                offset %= s.cycle_length
             i = 0
             while 1:
                 if offset < s.signal[i]:
-- 
2.43.0


From 0b87f8643440de543b4a79c82537612f2b7ddb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 04/83] fix: departure_time_in_second is correct for vehicles
 whose departure time is given in seconds

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4474e69..cea53de 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1048,7 +1048,7 @@ class Vehicle:
             s.departure_time: int = departure_time
         else:
             s.departure_time: int = int(departure_time/s.W.DELTAT)
-        s.departure_time_in_second: float = departure_time*s.W.DELTAT  #TODO: temporal workaround
+        s.departure_time_in_second: float = s.departure_time*s.W.DELTAT  #TODO: temporal workaround
         s.arrival_time: int = -1
         s.link_arrival_time: float = -1
         s.travel_time: float = -1
-- 
2.43.0


From 010af2d2cf772dd215c017ce9ebb635d7d2f803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 05/83] fix: distance traveled includes the distance carried
 over when a vehicle passes to the next link

---
 uxsim/trafficpp/traffi.cpp | 1 +
 uxsim/uxsim.py             | 1 +
 2 files changed, 2 insertions(+)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 7a32631..be56df1 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -418,6 +418,7 @@ void Node::transfer(){
             x_next_mr = 0.0;
         }
         chosen_veh->x = x_next_mr;
+        chosen_veh->distance_traveled += chosen_veh->x;
         chosen_veh->v += chosen_veh->x / w->delta_t;
         chosen_veh->move_remain = 0.0;
 
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index cea53de..4d9d2e1 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -393,6 +393,7 @@ class Node:
                     x_next = outlink.length
                     
                 veh.x = x_next
+                veh.distance_traveled += veh.x
                 veh.v += veh.x/s.W.DELTAT
                 veh.move_remain = 0
 
-- 
2.43.0


From 9757e6592ae9eff92fcdbb07269c8567990eec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 06/83] fix: get_xy_coords works for vehicles off the road and,
 in C++ mode, for a given time

---
 uxsim/uxsim.py             |  2 +-
 uxsim/uxsim_cpp_wrapper.py | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 4d9d2e1..405f69a 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1496,7 +1496,7 @@ class Vehicle:
         else:
             link = s.link
             xx = s.x
-        if link == -1:
+        if link is None or link == -1:
             return (-1, -1)
         link = s.W.get_link(link)
         x0 = link.start_node.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 42b8666..498a715 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -718,12 +718,17 @@ class CppVehicle:
             self.add_dest(d)
 
     def get_xy_coords(self, t=-1):
-        if self.link is None:
-            return self.orig.x, self.orig.y
-        ratio = self.x / self.link.length if self.link.length > 0 else 0
-        return (self.link.start_node.x + ratio * (self.link.end_node.x - self.link.start_node.x),
-                self.link.start_node.y + ratio * (self.link.end_node.y - self.link.start_node.y))
-
+        """Position now, or at time t based on the logs. Same rules as uxsim.Vehicle.get_xy_coords."""
+        if t != -1:
+            i = int(t / self.W.DELTAT)
+            link, x = self.log_link[i], self.log_x[i]
+        else:
+            link, x = self.link, self.x
+        if link is None or link == -1:
+            return (-1, -1)
+        ratio = x / link.length if link.length > 0 else 0
+        return (link.start_node.x + ratio * (link.end_node.x - link.start_node.x),
+                link.start_node.y + ratio * (link.end_node.y - link.start_node.y))
 
 
 class CppRoute:
-- 
2.43.0


From 22b40cfa424a4f97bae06778a4767305e9aeb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 07/83] fix: a vehicle added during the simulation follows the
 current route information instead of wandering until the next update

---
 uxsim/uxsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 405f69a..aab089e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1140,6 +1140,10 @@ class Vehicle:
         s.W.VEHICLES[s.name] = s
         s.W.VEHICLES_LIVING[s.name] = s
 
+        #a vehicle added during the simulation uses the current route information from the beginning
+        if route_pref == None and s.dest != None and s.W.finalized and s.W.T > 0 and s.route_choice_principle == "homogeneous_DUO":
+            s.route_pref_update()
+
     def __repr__(s):
         return f"<Vehicle {s.name}: {s.state}, x={s.x}, link={s.link}>"
 
-- 
2.43.0


From e9ceac3a5cd428effaa6a45ebe58a49fdda5037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 08/83] fix: C++ mode vehicle logs are up to date when read
 during a run and cover the home timesteps as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 498a715..451e8b4 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1234,6 +1234,7 @@ class CppWorld:
             veh_id += 1
             py_veh._cpp_vehicle = cpp_veh
             py_veh._log_cache = None
+            py_veh._created_timestep = self.T if self.finalized else 0
             py_veh.orig = nodes_name_dict.get(cpp_veh.orig.name) if cpp_veh.orig else None
             py_veh.dest = nodes_name_dict.get(cpp_veh.dest.name) if cpp_veh.dest else None
             c = colors[j]
@@ -1258,7 +1259,9 @@ class CppWorld:
 
     def _sync_from_cpp(self):
         """Update VEHICLES_LIVING / VEHICLES_RUNNING from C++ state.
-        Log caches are never explicitly invalidated — they start as None and are built lazily on first access (e.g. when analyzer reads log_t)."""
+        Log caches are invalidated here and rebuilt lazily on first access (e.g. when analyzer reads log_t)."""
+        for veh in self._veh_by_index:
+            veh._log_cache = None
         # Batch-update VEHICLES_LIVING / VEHICLES_RUNNING using C++ bulk query
         try:
             states = self._cpp_world.get_all_vehicle_states()
@@ -1347,9 +1350,13 @@ class CppWorld:
             log_link = all_log_link[s:e]
             # Prepend home entries if compact format (n_missing available)
             if all_n_missing is not None:
-                nm = int(all_n_missing[i])
+                # home timesteps run from the vehicle's creation to its first C++ log entry, or until now if it is still at home
+                if e > s or not self._cpp_vehicle_log_mode:
+                    nm = int(all_n_missing[i]) - veh._created_timestep
+                else:
+                    nm = self.T - veh._created_timestep
                 if nm > 0:
-                    home_t = np.arange(nm, dtype=all_log_t.dtype) * delta_t
+                    home_t = (veh._created_timestep + np.arange(nm, dtype=all_log_t.dtype)) * delta_t
                     home_fill_f = np.full(nm, -1.0)
                     home_fill_i = np.full(nm, -1, dtype=np.int32)
                     home_state = np.zeros(nm, dtype=np.int32)  # 0 = home
-- 
2.43.0


From aebba4305c00966b05daf59776f2e7110e818a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 09/83] fix: adddemand_area2area2 and adddemand_nodes2nodes2 of
 C++ mode keep the attribute and never generate trips from a node to itself

---
 uxsim/uxsim_cpp_wrapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 451e8b4..4f39de2 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1061,7 +1061,10 @@ class CppWorld:
         os = self.rng.choice(origs, size=size)
         ds = self.rng.choice(dests, size=size)
         for t, o, d in zip(ts, os, ds):
-            self.addVehicle(o, d, t, direct_call=False)
+            d2 = d
+            if o == d:
+                d2 = self.rng.choice([dd for dd in dests if dd != d])
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     @demand_info_record
     def adddemand_nodes2nodes2(self, origs, dests, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1077,7 +1080,7 @@ class CppWorld:
             d2 = d
             if o == d:
                 d2 = self.rng.choice([dd for dd in dests if dd != d])
-            self.addVehicle(o, d2, t, direct_call=False)
+            self.addVehicle(o, d2, t, attribute=attribute, direct_call=False)
 
     # --- Simulation ---
 
-- 
2.43.0


From 280314b79faec13dc42c53d64b787067eb778eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 10/83] fix: C++ mode vehicle logs can be read before the
 scenario is finalized

---
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 4f39de2..fc5c5d7 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -1357,7 +1357,7 @@ class CppWorld:
                 if e > s or not self._cpp_vehicle_log_mode:
                     nm = int(all_n_missing[i]) - veh._created_timestep
                 else:
-                    nm = self.T - veh._created_timestep
+                    nm = (self.T if self.finalized else 0) - veh._created_timestep
                 if nm > 0:
                     home_t = (veh._created_timestep + np.arange(nm, dtype=all_log_t.dtype)) * delta_t
                     home_fill_f = np.full(nm, -1.0)
-- 
2.43.0


From a0f82d28ed00b8b95a232a64a11415f44c6f4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 11/83] fix: C++ mode get_node/get_link and everything that
 looks nodes or links up raise for unknown names as in Python mode

---
 uxsim/uxsim_cpp_wrapper.py | 50 +++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index fc5c5d7..af8bdba 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -938,8 +938,8 @@ class CppWorld:
         orig = args[0] if len(args) > 0 else kwargs.get('orig')
         dest = args[1] if len(args) > 1 else kwargs.get('dest')
         departure_time = args[2] if len(args) > 2 else kwargs.get('departure_time', 0)
-        orig_name = orig.name if hasattr(orig, 'name') else str(orig)
-        dest_name = dest.name if hasattr(dest, 'name') else str(dest)
+        orig_name = self._resolve_node_name(orig)
+        dest_name = self._resolve_node_name(dest)
         dep_is_ts = kwargs.get('departure_time_is_time_step', 0)
         dep_ts = int(departure_time) if dep_is_ts else int(departure_time / self.DELTAT)
 
@@ -958,8 +958,9 @@ class CppWorld:
         links_prefer = kwargs.get('links_prefer', [])
         cpp_links_pref = []
         for l in links_prefer:
-            lname = l.name if hasattr(l, 'name') else str(l)
-            cpp_links_pref.append(lname)
+            cpp_links_pref.append(self.get_link(l).name)
+
+        cpp_avoid = [self.get_link(l)._cpp_link for l in kwargs.get('links_avoid', [])]
 
         n_before = self._cpp_world.vehicle_count
         # The period covers exactly one timestep and 1.5 platoons are requested in it (the remainder is discarded), so that one platoon is created regardless of floating-point rounding.
@@ -967,15 +968,7 @@ class CppWorld:
                    float((dep_ts + 0.25) * self.DELTAT), float((dep_ts + 1.25) * self.DELTAT), float(1.5 * self.DELTAN / self.DELTAT), cpp_links_pref)
 
         # Set links_avoid on newly created C++ vehicles
-        links_avoid = kwargs.get('links_avoid', [])
-        if links_avoid:
-            cpp_avoid = []
-            for l in links_avoid:
-                link_obj = self.get_link(l) if isinstance(l, str) else l
-                try:
-                    cpp_avoid.append(link_obj._cpp_link)
-                except AttributeError:
-                    pass
+        if cpp_avoid:
             n_after = self._cpp_world.vehicle_count
             for i in range(n_before, n_after):
                 try:
@@ -999,10 +992,11 @@ class CppWorld:
         return veh
 
     def _resolve_node_name(self, node):
-        """Get node name string from Node object or string."""
-        if hasattr(node, 'name'):
-            return node.name
-        return str(node)
+        """Get node name string from Node object or string. Raises if there is no such node."""
+        node = self.get_node(node)
+        if node is None:
+            raise ValueError("origin and destination nodes must be specified in C++ mode")
+        return node.name
 
     @demand_info_record
     def adddemand(self, orig, dest, t_start, t_end, flow=-1, volume=-1, attribute=None, direct_call=True):
@@ -1416,25 +1410,25 @@ class CppWorld:
     def get_node(self, node):
         if node is None:
             return None
-        if isinstance(node, CppNode):
+        if isinstance(node, CppNode) and node.W is self:
             return node
         if isinstance(node, (str, np.str_)):
-            return self.NODES_NAME_DICT.get(node)
-        if hasattr(node, 'name'):
-            return self.NODES_NAME_DICT.get(node.name)
+            if node in self.NODES_NAME_DICT:
+                return self.NODES_NAME_DICT[node]
+        elif getattr(node, 'name', None) in self.NODES_NAME_DICT:
+            return self.NODES_NAME_DICT[node.name]
         raise Exception(f"'{node}' is not Node in this World")
 
     def get_link(self, link):
         if link is None:
             return None
-        if isinstance(link, CppLink):
-            if link.W is self:
-                return link
-            return self.LINKS_NAME_DICT.get(link.name)
+        if isinstance(link, CppLink) and link.W is self:
+            return link
         if isinstance(link, (str, np.str_)):
-            return self.LINKS_NAME_DICT.get(link)
-        if hasattr(link, 'name'):
-            return self.LINKS_NAME_DICT.get(link.name)
+            if link in self.LINKS_NAME_DICT:
+                return self.LINKS_NAME_DICT[link]
+        elif getattr(link, 'name', None) in self.LINKS_NAME_DICT:
+            return self.LINKS_NAME_DICT[link.name]
         raise Exception(f"'{link}' is not Link in this World")
 
     def get_nearest_node(self, x, y):
-- 
2.43.0


From a807f24e3b616911d3373166f17e8d6c8f0bf718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 12/83] fix: C++ mode auto_rename of nodes works and a rejected
 node or link leaves nothing behind; non-integer lanes are rejected

---
 uxsim/uxsim_cpp_wrapper.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index af8bdba..0fdf453 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -66,14 +66,14 @@ class CppNode:
                     self.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
             else:
                 raise ValueError(f"Node name {self.name} already used by another node.")
-        self.W.NODES.append(self)
-        self.W.NODES_NAME_DICT[self.name] = self
 
         # Forward to C++
-        _add_node(self.W._cpp_world, name, float(x), float(y), list(signal), float(actual_signal_offset),
+        _add_node(self.W._cpp_world, self.name, float(x), float(y), list(signal), float(actual_signal_offset),
                   float(flow_capacity) if flow_capacity is not None else -1.0,
                   int(number_of_lanes) if number_of_lanes is not None else -1)
         self._cpp_node = self.W._cpp_world.get_node(self.name)
+        self.W.NODES.append(self)
+        self.W.NODES_NAME_DICT[self.name] = self
 
         # Read back from C++ (single source of truth)
         self.x = self._cpp_node.x
@@ -195,6 +195,8 @@ class CppLink:
         self.start_node = self.W.get_node(start_node)
         self.end_node = self.W.get_node(end_node)
         self.number_of_lanes = int(number_of_lanes)
+        if self.number_of_lanes != number_of_lanes:
+            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at {name}.")
 
         # Signal
         self.signal_group = [signal_group] if isinstance(signal_group, int) else list(signal_group)
@@ -210,10 +212,6 @@ class CppLink:
                     self.W.rng.choice(list(string.ascii_letters + string.digits), size=8))
             else:
                 raise ValueError(f"Link name {self.name} already used by another link.")
-        self.W.LINKS.append(self)
-        self.W.LINKS_NAME_DICT[self.name] = self
-        self.start_node.outlinks[self.name] = self
-        self.end_node.inlinks[self.name] = self
 
         self.attribute = attribute
         self.user_attribute = user_attribute
@@ -234,6 +232,10 @@ class CppLink:
             _add_link(self.W._cpp_world, self.name, self.start_node.name, self.end_node.name,
                       float(free_flow_speed), float(kappa), float(length), float(merge_priority), float(cpp_capacity_out), cpp_signal_group)
         self._cpp_link = self.W._cpp_world.get_link(self.name)
+        self.W.LINKS.append(self)
+        self.W.LINKS_NAME_DICT[self.name] = self
+        self.start_node.outlinks[self.name] = self
+        self.end_node.inlinks[self.name] = self
 
         # Read derived parameters from C++ (single source of truth)
         cpp = self._cpp_link
-- 
2.43.0


From 19c30acebfbc10a9ae5ada62f748c2cc588834d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 13/83] fix: C++ mode Node.flow_capacity is None when unlimited
 and can be changed during a run

---
 uxsim/uxsim_cpp_wrapper.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 0fdf453..1ff5a70 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -79,13 +79,26 @@ class CppNode:
         self.x = self._cpp_node.x
         self.y = self._cpp_node.y
         self.signal_offset = self._cpp_node.signal_offset
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
-        self.flag_lanes_automatically_determined = False
+        self.flag_lanes_automatically_determined = flow_capacity is not None and number_of_lanes is None
 
     def __repr__(self):
         return f"<Node {self.name}>"
 
+    # None means unlimited, which is a negative value in C++
+    @property
+    def flow_capacity(self):
+        return self._cpp_node.flow_capacity if self._cpp_node.flow_capacity >= 0 else None
+    @flow_capacity.setter
+    def flow_capacity(self, value):
+        self._cpp_node.flow_capacity = float(value) if value is not None else -1.0
+
+    @property
+    def number_of_lanes(self):
+        return self._cpp_node.number_of_lanes if self._cpp_node.number_of_lanes >= 0 else None
+    @number_of_lanes.setter
+    def number_of_lanes(self, value):
+        self._cpp_node.number_of_lanes = int(value) if value is not None else -1
+
     @property
     def signal(self):
         return list(self._cpp_node.signal_intervals)
@@ -174,11 +187,10 @@ class CppNode:
         Automatically determine the `flow_capacity` of this node based on the capacity of connected links. It does not override if `flow_capacity` was already set.
         This calculation is based on an assumption that the node is an intersection with two major roads and two minor roads or similar types. In this case, the node capacity should be the same to that of major roads.
         """
+        lanes_old = self.number_of_lanes
         self._cpp_node.adjust_node_capacity()
-        if self._cpp_node.number_of_lanes != self.number_of_lanes:
+        if self.number_of_lanes != lanes_old:
             self.flag_lanes_automatically_determined = True
-        self.flow_capacity = self._cpp_node.flow_capacity
-        self.number_of_lanes = self._cpp_node.number_of_lanes
 
 
 class CppLink:
-- 
2.43.0


From 612e0e75c4c7ed5c2c8d66569fe392f1cb6813ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 14/83] fix: C++ mode link time queries do not read beyond the
 current time, and average_speed is based on instantaneous travel time as
 documented

---
 uxsim/uxsim_cpp_wrapper.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 1ff5a70..1b688ff 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -400,17 +400,18 @@ class CppLink:
     def num_vehicles_queue(self):
         return self._cpp_link.count_vehicles_in_queue() * self.W.DELTAN
 
+    def _value_at(self, arr, t, default):
+        """Value of a per-timestep record at time t. The C++ arrays cover the whole horizon, so times after the last executed timestep get its value, as in Python mode."""
+        n = min(self.W.T, len(arr))
+        if n == 0:
+            return default
+        return arr[min(max(int(t // self.W.DELTAT), 0), n - 1)]
+
     def arrival_count(self, t):
-        if len(self.cum_arrival) == 0:
-            return 0
-        idx = min(max(int(t / self.W.DELTAT), 0), len(self.cum_arrival) - 1)
-        return self.cum_arrival[idx]
+        return self._value_at(self.cum_arrival, t, 0)
 
     def departure_count(self, t):
-        if len(self.cum_departure) == 0:
-            return 0
-        idx = min(max(int(t / self.W.DELTAT), 0), len(self.cum_departure) - 1)
-        return self.cum_departure[idx]
+        return self._value_at(self.cum_departure, t, 0)
 
     def inflow_between(self, t0, t1):
         return (self.arrival_count(t1) - self.arrival_count(t0)) / (t1 - t0) if t1 != t0 else 0
@@ -428,16 +429,7 @@ class CppLink:
         return self.num_vehicles_t(t) / self.length
 
     def instant_travel_time(self, t):
-        arr = self.traveltime_instant
-        n = len(arr)
-        if n == 0:
-            return self._free_flow_tt
-        idx = int(t / self._deltat)
-        if idx < 0:
-            idx = 0
-        elif idx >= n:
-            idx = n - 1
-        return arr[idx]
+        return self._value_at(self.traveltime_instant, t, self._free_flow_tt)
 
     def actual_travel_time(self, t):
         arr = self.traveltime_actual
@@ -452,7 +444,7 @@ class CppLink:
         return arr[idx]
 
     def average_speed(self, t):
-        tt = self.actual_travel_time(t)
+        tt = self.instant_travel_time(t)
         return self.length / tt if tt > 0 else self.u
 
     def average_flow(self, t):
-- 
2.43.0


From 649c16ed792a768c9e3efceb9eeacb6e2ecc04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 15/83] fix: C++ mode addVehicle respects trip_abort

---
 uxsim/uxsim_cpp_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 1b688ff..6fe5eb7 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -992,6 +992,7 @@ class CppWorld:
             veh.name = name
             self.VEHICLES[name] = veh
             self.VEHICLES_LIVING[name] = veh
+        veh._cpp_vehicle.trip_abort = int(kwargs.get('trip_abort', 1))
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
         veh.user_function = kwargs.get('user_function')
-- 
2.43.0


From 3a799df6af00929ccf75270217478f73b0851132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 16/83] fix: q_star and k_star follow change_free_flow_speed
 and change_jam_density

---
 uxsim/uxsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index aab089e..8d4a9a4 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -970,6 +970,8 @@ class Link:
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative free_flow_speed at {s}", UserWarning)
 
@@ -981,6 +983,8 @@ class Link:
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
             s.delta = 1/s.kappa
             s.delta_per_lane = s.delta*s.number_of_lanes
+            s.q_star = s.capacity
+            s.k_star = s.capacity/s.u if s.u > 0 else 0
         else:
             warnings.warn(f"ignored negative jam_density at {s}", UserWarning)
 
-- 
2.43.0


From ceb196f2186cbac9114e993910fac80c35fc8778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 17/83] fix: departure time in log_t_link is not truncated to
 integer

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 8d4a9a4..a546559 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1122,7 +1122,7 @@ class Vehicle:
         s.log_lane = [] #車線
         s.color = (s.W.rng.random(), s.W.rng.random(), s.W.rng.random())
 
-        s.log_t_link : list[tuple[int,str|Link]] = [[int(s.departure_time*s.W.DELTAT), "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
+        s.log_t_link : list[tuple[int,str|Link]] = [[s.departure_time*s.W.DELTAT, "home"]] #route-level log. It records the time and link when the vehicle entered new link. The typehint is technically incorrect; it is actually not tuple, but list
         s.link_old = None
         
         s.distance_traveled = 0
-- 
2.43.0


From 7587dca702b099acf2416caee275b787be23c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 18/83] fix: Link with eular_dx specified no longer crashes at
 finalize_scenario

---
 uxsim/uxsim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index a546559..101b982 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -619,6 +619,8 @@ class Link:
             s.edie_dx = s.length/10
             if s.edie_dx < s.u*s.W.DELTAT:
                 s.edie_dx = s.u*s.W.DELTAT
+        else:
+            s.edie_dx = eular_dx
 
 
     def __repr__(s):
-- 
2.43.0


From a267052521bbfef03fd42a5b13acbe269582372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:51 +0000
Subject: [PATCH 19/83] fix: Link.speed and other link states always reflect
 the current state; reading them in the middle of a timestep no longer affects
 the simulation

---
 uxsim/uxsim.py | 44 ++++++++++----------------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 101b982..26cb627 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -600,13 +600,6 @@ class Link:
         s.user_function = user_function
 
 
-        #リアルタイムリンク状態（外部から参照する用）
-        s._speed = -1 #リンク全体の平均速度
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1 #車両数
-        s._num_vehicles_queue = -1 #自由流速度未満の車両数
-
         #より正確な車両軌跡
         s.tss = []
         s.xss = []
@@ -660,13 +653,6 @@ class Link:
         if s.user_function is not None:
             s.user_function(s)
 
-        #リアルタイム状態リセット
-        s._speed = -1
-        s._density = -1
-        s._flow = -1
-        s._num_vehicles = -1
-        s._num_vehicles_queue = -1
-
     def in_out_flow_constraint(s):
         """
         Link capacity updates.
@@ -686,8 +672,9 @@ class Link:
         Compute instantaneous travel time.
         """
         if s.W.T%s.W.instantaneous_TT_timestep_interval == 0:
-            if s.speed > 0:
-                s.traveltime_instant.append(s.length/s.speed)
+            speed = s.speed
+            if speed > 0:
+                s.traveltime_instant.append(s.length/speed)
             else:
                 s.traveltime_instant.append(s.length/(s.u/100))
         else:
@@ -905,36 +892,25 @@ class Link:
     #getter/setter
     @property
     def speed(s):
-        if s._speed == -1:
-            if len(s.vehicles):
-                s._speed = np.average([veh.v for veh in s.vehicles])
-            else:
-                s._speed = s.u
-        return s._speed
+        if len(s.vehicles):
+            return np.average([veh.v for veh in s.vehicles])
+        return s.u
 
     @property
     def density(s):
-        if s._density == -1:
-            s._density = s.num_vehicles/s.length
-        return s._density
+        return s.num_vehicles/s.length
 
     @property
     def flow(s):
-        if s._flow == -1:
-            s._flow = s.density*s.speed
-        return s._flow
+        return s.density*s.speed
 
     @property
     def num_vehicles(s):
-        if s._num_vehicles == -1:
-            s._num_vehicles = len(s.vehicles)*s.W.DELTAN
-        return s._num_vehicles
+        return len(s.vehicles)*s.W.DELTAN
 
     @property
     def num_vehicles_queue(s):
-        if s._num_vehicles_queue == -1:
-            s._num_vehicles_queue = sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
-        return s._num_vehicles_queue
+        return sum([veh.v < s.u for veh in s.vehicles])*s.W.DELTAN
 
     #Disabled temporally to avoid cirtical bugs related to scenario writer/reader. Instead, change_*() are added
     # @property
-- 
2.43.0


From 82f921b4056a8ac4d663dddd392102d280784214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:29 +0000
Subject: [PATCH 20/83] fix: Link with both jam_density and
 jam_density_per_lane, or non-integer lanes, no longer fails with
 AttributeError

---
 uxsim/uxsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 26cb627..ee1c324 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -516,7 +516,7 @@ class Link:
         #車線数
         s.number_of_lanes = int(number_of_lanes)
         if s.number_of_lanes != number_of_lanes:
-            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at {s}.")
+            raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at link {name}.")
         
         #フローモデルパラメータ:per link
         s.u = free_flow_speed
@@ -525,7 +525,7 @@ class Link:
             s.kappa = jam_density_per_lane*number_of_lanes
         if jam_density != 0.2 and jam_density_per_lane != None:
             s.kappa = jam_density_per_lane*number_of_lanes
-            warnings.warn(f"{s}: jam_density is ignored because jam_density_per_lane is set.", UserWarning)
+            warnings.warn(f"Link {name}: jam_density is ignored because jam_density_per_lane is set.", UserWarning)
         s.tau = s.W.REACTION_TIME/s.number_of_lanes
         s.w = 1/s.tau/s.kappa
         s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
-- 
2.43.0


From 92e1b1b28cb4d93a0b6023a563eed2a9cb90db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:39 +0000
Subject: [PATCH 21/83] fix: the average speed statistic is the mean of its
 samples also when vehicles wait for departure

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ee1c324..0836344 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1518,7 +1518,7 @@ class Vehicle:
 
                     if s.state == "wait":
                         s.W.analyzer.average_speed_count += 1
-                        s.W.analyzer.average_speed += 0
+                        s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count
                 else:
                     # if len(s.log_link) == 0 or s.log_link[-1] != s.link:
                     #     s.log_t_link.append([t, s.link])
-- 
2.43.0


From 3976a7671cd89fb13859546d62501354ce29fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 22/83] fix: C++ engine ends trips in the same timestep as
 Python mode when vehicles overtake in creation order on multi-lane links

---
 uxsim/trafficpp/traffi.cpp | 26 ++++++++++++++++++++------
 uxsim/trafficpp/traffi.h   |  3 +++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index be56df1..fa31dbc 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -862,17 +862,13 @@ void Vehicle::update(Vehicle *snap_leader){
             if (link->end_node == dest){
                 // prepare for trip end (wait if not at front of link)
                 flag_waiting_for_trip_end = 1;
-                if (link->vehicles.front() == this){
-                    end_trip();
-                }
+                end_trip_if_front();
             } else if (link->end_node->out_links.empty() && trip_abort == 1){
                 // dead-end: abort trip
                 flag_trip_aborted = 1;
                 route_next_link = nullptr;
                 flag_waiting_for_trip_end = 1;
-                if (link->vehicles.front() == this){
-                    end_trip();
-                }
+                end_trip_if_front();
             } else {
                 // request link transfer (RUN-path route choice uses this link's RNG stream; the
                 // arrival is staged in this link's buffer, aggregated id-ordered in transfer)
@@ -884,6 +880,24 @@ void Vehicle::update(Vehicle *snap_leader){
     // vsEND / vsABORT: nothing
 }
 
+/**
+ * @brief End the trip if this vehicle is at the front of its link; otherwise it waits until Node::transfer.
+ * Vehicles are updated front-to-back here but in id order in Python: a vehicle whose preceding vehicle has a higher id and ends its trip in the same timestep was not yet at the front at its own update.
+ */
+void Vehicle::end_trip_if_front(){
+    if (link->vehicles.front() != this){
+        return;
+    }
+    if (link->ended_timestep != w->timestep){
+        link->ended_timestep = w->timestep;
+        link->ended_max_id = -1;
+    }
+    if (link->ended_max_id < id){
+        link->ended_max_id = id;
+        end_trip();
+    }
+}
+
 /**
  * @brief End the vehicle's trip.
  */
diff --git a/uxsim/trafficpp/traffi.h b/uxsim/trafficpp/traffi.h
index 06de9af..a9a465e 100644
--- a/uxsim/trafficpp/traffi.h
+++ b/uxsim/trafficpp/traffi.h
@@ -155,6 +155,8 @@ struct Link {
     // (parallel) and in the serial transfer; both defer the shared-registry erase here, applied
     // in id order in the serial post-region reconciliation (see main_loop).
     vector<Vehicle *> ended_buf;
+    size_t ended_timestep = (size_t)-1; // last timestep in which a trip ended during the vehicle update
+    int ended_max_id = -1;              // highest id of the vehicles that ended their trips in it
 
     double capacity_out;
     double capacity_out_remain;
@@ -271,6 +273,7 @@ struct Vehicle {
         const string &dest_name);
 
     void end_trip();
+    void end_trip_if_front();
     // Newell car-following: computes x_next only (no state change), read as an independent pass
     // before the RUN update pass so leaders are read at their pre-move position (order-neutral).
     void car_follow_newell();
-- 
2.43.0


From 280dc9ae21ab2d90616db7a1e90f3c30429c0887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 23/83] fix: worlds, nodes and links no longer share mutable
 default arguments

---
 uxsim/uxsim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 0836344..a16def0 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -165,7 +165,7 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
-        s.signal = signal
+        s.signal = list(signal)
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
         if reset:
@@ -564,6 +564,8 @@ class Link:
         s.signal_group = signal_group
         if type(s.signal_group) == int:
             s.signal_group = [s.signal_group]
+        else:
+            s.signal_group = list(s.signal_group)
 
         #流出容量
         s.capacity_out = capacity_out
@@ -1674,7 +1676,7 @@ class World:
                  vehicle_logging_timestep_interval: int=1,
                  reduce_memory_delete_vehicle_route_pref: bool=False,
                  hard_deterministic_mode: bool=False,
-                 meta_data: dict={}, user_attribute=None, user_function=None,
+                 meta_data: dict|None=None, user_attribute=None, user_function=None,
                  threads: int=1,
                  cpp: bool=False):
         """
@@ -1814,7 +1816,7 @@ class World:
 
         W.hard_deterministic_mode = hard_deterministic_mode
 
-        W.meta_data = meta_data
+        W.meta_data = meta_data if meta_data is not None else {}
         W.network_info = ddict(list)
         W.demand_info = ddict(list)
 
-- 
2.43.0


From 87f5e0a40f7feca9c0ae14be90151d7b0477f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:38 +0000
Subject: [PATCH 24/83] fix: order of candidate links under
 links_prefer/links_avoid no longer depends on link names

---
 uxsim/uxsim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index a16def0..ad3dd25 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -250,9 +250,9 @@ class Node:
                     outlinks = list(s.outlinks.values())
                     if veh.specified_route == None:
                         if set(outlinks) & set(veh.links_prefer):
-                            outlinks = sorted(set(outlinks) & set(veh.links_prefer), key=lambda l:l.name)
+                            outlinks = sorted(set(outlinks) & set(veh.links_prefer), key=lambda l:l.id)
                         if set(outlinks) & set(veh.links_avoid):
-                            outlinks = sorted(set(outlinks) - set(veh.links_avoid), key=lambda l:l.name)
+                            outlinks = sorted(set(outlinks) - set(veh.links_avoid), key=lambda l:l.id)
                     else:
                         if veh.specified_route[0] in outlinks:
                             outlinks = [veh.specified_route[0]]
@@ -1326,9 +1326,9 @@ class Vehicle:
 
                     #if links_prefer is given and available at the node, select only from the links in the list. if links_avoid is given, select links not in the list.
                     if set(outlinks) & set(s.links_prefer):
-                        outlinks = sorted(set(outlinks) & set(s.links_prefer), key=lambda l:l.name)
+                        outlinks = sorted(set(outlinks) & set(s.links_prefer), key=lambda l:l.id)
                     if set(outlinks) & set(s.links_avoid):
-                        outlinks = sorted(set(outlinks) - set(s.links_avoid), key=lambda l:l.name)
+                        outlinks = sorted(set(outlinks) - set(s.links_avoid), key=lambda l:l.id)
 
                     if s.W.no_cyclic_routing and s.mode != "taxi":
                         traveled_nodes = set([l[1].start_node for l in s.log_t_link[1:]])
-- 
2.43.0


From 61708cf2cb0636d9d62e51d48ecc2afc1be7bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:51 +0000
Subject: [PATCH 25/83] fix: initial inflow allowance of links without
 capacity_in is in vehicles, not vehicles per second

---
 uxsim/trafficpp/traffi.cpp | 4 +---
 uxsim/uxsim.py             | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index fa31dbc..687d3fd 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -509,10 +509,8 @@ Link::Link(
 
     if (this->capacity_in < 0.0){
         this->capacity_in = this->capacity * 2;
-        this->capacity_in_remain = this->capacity * 2;  // large initial value = effectively unlimited
-    } else {
-        this->capacity_in_remain = this->capacity_in * w->delta_t;
     }
+    this->capacity_in_remain = this->capacity_in * w->delta_t;
 
     start_node = w->nodes_map[start_node_name];
     end_node = w->nodes_map[end_node_name];
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index ad3dd25..c45f377 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -578,9 +578,7 @@ class Link:
         s.capacity_in = capacity_in
         if capacity_in == None:
             s.capacity_in = s.capacity*2
-            s.capacity_in_remain = s.capacity*2
-        else:
-            s.capacity_in_remain = s.capacity_in*s.W.DELTAT
+        s.capacity_in_remain = s.capacity_in*s.W.DELTAT
 
         s.id = len(s.W.LINKS)
         s.name = name
-- 
2.43.0


From 343c7f0da9af9485cea030d9d3d1b8197167904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 26/83] fix: analyses made during the simulation are recomputed
 afterwards instead of being kept as final results

---
 uxsim/analyzer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 761e59a..dc495c2 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -122,10 +122,9 @@ class Analyzer:
         """
         Analyze OD-specific stats: number of trips, number of completed trips, free-flow travel time, average travel time, its std, total distance traveled.
         """
-        if s.flag_od_analysis:
+        if s.flag_od_analysis and not s.W.check_simulation_ongoing():
             return 0
-        else:
-            s.flag_od_analysis = 1
+        s.flag_od_analysis = int(not s.W.check_simulation_ongoing())    #results during the simulation are not final
 
         s.od_trips = ddict(lambda: 0)
         s.od_trips_comp = ddict(lambda: 0)
@@ -209,10 +208,12 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The trajectories are not exactly accurate.", LoggingWarning)
 
-        if s.flag_trajectory_computed:
+        if s.flag_trajectory_computed and not s.W.check_simulation_ongoing():
             return 0
-        else:
-            s.flag_trajectory_computed = 1
+        s.flag_trajectory_computed = int(not s.W.check_simulation_ongoing())    #results during the simulation are not final
+
+        for l in s.W.LINKS:
+            l.tss, l.xss, l.ls, l.cs, l.names = [], [], [], [], []
 
         for veh in s.W.VEHICLES.values():
             l_old = None
@@ -249,10 +250,9 @@ class Analyzer:
         """
         Compute Edie's traffic state for each link.
         """
-        if s.flag_edie_state_computed:
+        if s.flag_edie_state_computed and not s.W.check_simulation_ongoing():
             return 0
-        else:
-            s.flag_edie_state_computed = 1
+        s.flag_edie_state_computed = int(not s.W.check_simulation_ongoing())    #results during the simulation are not final
 
         s.compute_accurate_traj()
         for l in s.W.LINKS:
@@ -1588,7 +1588,7 @@ class Analyzer:
         if s.W.vehicle_logging_timestep_interval != 1:
             warnings.warn("vehicle_logging_timestep_interval is not 1. The output data is not exactly accurate.", LoggingWarning)
 
-        if s.flag_pandas_convert == 0:
+        if s.flag_pandas_convert == 0 or s.W.check_simulation_ongoing():
             out = [["name", "dn", "orig", "dest", "t", "link", "x", "s", "v"]]
             for veh in s.W.VEHICLES.values():
                 for i in range(len(veh.log_t)):
@@ -1608,7 +1608,7 @@ class Analyzer:
                         out.append([veh.name, s.W.DELTAN, veh.orig.name, veh_dest_name, veh.log_t[i], linkname, veh.log_x[i], veh.log_s[i], veh.log_v[i]])
             s.df_vehicles = pd.DataFrame(out[1:], columns=out[0])
 
-            s.flag_pandas_convert = 1
+            s.flag_pandas_convert = int(not s.W.check_simulation_ongoing())
         return s.df_vehicles
 
     def log_vehicles_to_pandas(s):
-- 
2.43.0


From 3d24813effa236b6b4265a039775ba2581403382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:10 +0000
Subject: [PATCH 27/83] fix: progress can be shown at intervals shorter than
 the simulation step

---
 uxsim/uxsim.py             | 2 +-
 uxsim/uxsim_cpp_wrapper.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index c45f377..313601f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1804,7 +1804,7 @@ class World:
 
         ## progress print setting
         W.show_progress = show_progress
-        W.show_progress_deltat_timestep = int(show_progress_deltat/W.DELTAT)
+        W.show_progress_deltat_timestep = max(int(show_progress_deltat/W.DELTAT), 1)
 
         ## memory setting
         W.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6fe5eb7..6b29afe 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -854,7 +854,7 @@ class CppWorld:
         self.instantaneous_TT_timestep_interval = min(int(instantaneous_TT_timestep_interval), self.DELTAT_ROUTE)
         self.route_pref_for_vehs = None
         self.show_progress = show_progress
-        self.show_progress_deltat_timestep = int(show_progress_deltat / self.DELTAT)
+        self.show_progress_deltat_timestep = max(int(show_progress_deltat / self.DELTAT), 1)
         self.reduce_memory_delete_vehicle_route_pref = reduce_memory_delete_vehicle_route_pref
         self.name = name
         self.hard_deterministic_mode = hard_deterministic_mode
-- 
2.43.0


From 40d4d5725b4c40caa0dac8df41b5475c880b005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 28/83] fix: mfd_to_pandas returns all time intervals, not as
 many as there are sets of links queried so far

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index dc495c2..7393ae6 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -2012,7 +2012,7 @@ class Analyzer:
         links = frozenset(links)
 
         out = [["t", "network_k", "network_q"]]
-        for i in lange(s.W.K_AREA):
+        for i in lange(s.W.K_AREA[links]):
             out.append([i*s.W.EULAR_DT, s.W.K_AREA[links][i], s.W.Q_AREA[links][i]])
         s.df_mfd = pd.DataFrame(out[1:], columns=out[0])
         return s.df_mfd
-- 
2.43.0


From 69c883d7dc8c297c8acb23b9f5d8c16604a09a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 29/83] fix: average_travel_time_between counts every vehicle,
 also those entering in the same timestep

---
 uxsim/uxsim.py             | 7 ++++---
 uxsim/uxsim_cpp_wrapper.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 313601f..e1c1b40 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -756,10 +756,11 @@ class Link:
         float
             The average travel time.
         """
-        t_list = [t for t in s.vehicles_enter_log.keys() if t0 <= t < t1]
-        if len(t_list) == 0:
+        entries = np.diff(s.cum_arrival, prepend=0) #multiple vehicles can enter in the same timestep
+        ts = [i for i in np.flatnonzero(entries) if t0 <= i*s.W.DELTAT < t1]
+        if len(ts) == 0:
             return s.length/s.u
-        return np.average([s.actual_travel_time(t) for t in t_list])
+        return np.average([s.actual_travel_time(i*s.W.DELTAT) for i in ts], weights=entries[ts])
     
     def num_vehicles_t(s, t: float) -> float:
         """
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6b29afe..2afa632 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -417,10 +417,11 @@ class CppLink:
         return (self.arrival_count(t1) - self.arrival_count(t0)) / (t1 - t0) if t1 != t0 else 0
 
     def average_travel_time_between(self, t0, t1):
-        t_list = [t for t in self.vehicles_enter_log.keys() if t0 <= t < t1]
-        if len(t_list) == 0:
+        entries = np.diff(self.cum_arrival[:self.W.T], prepend=0)
+        ts = [i for i in np.flatnonzero(entries) if t0 <= i * self.W.DELTAT < t1]
+        if len(ts) == 0:
             return self.length / self.u
-        return np.average([self.actual_travel_time(t) for t in t_list])
+        return np.average([self.actual_travel_time(i * self.W.DELTAT) for i in ts], weights=entries[ts])
 
     def num_vehicles_t(self, t):
         return self.arrival_count(t) - self.departure_count(t)
-- 
2.43.0


From ff648993f222225137b13b58b1d2183394bacd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 30/83] fix: link time queries before the first timestep return
 the initial state instead of failing

---
 uxsim/uxsim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index e1c1b40..07a093f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -695,6 +695,8 @@ class Link:
             The cumulative arrival vehicle count.
         """
         tt = int(t//s.W.DELTAT)
+        if len(s.cum_arrival) == 0:
+            return 0
         if tt >= len(s.cum_arrival):
             return s.cum_arrival[-1]
         if tt < 0:
@@ -716,6 +718,8 @@ class Link:
             The cumulative departure vehicle count.
         """
         tt = int(t//s.W.DELTAT)
+        if len(s.cum_departure) == 0:
+            return 0
         if tt >= len(s.cum_departure):
             return s.cum_departure[-1]
         if tt < 0:
@@ -809,6 +813,8 @@ class Link:
             The instantaneous travel time.
         """
         tt = int(t//s.W.DELTAT)
+        if len(s.traveltime_instant) == 0:
+            return s.length/s.u
         if tt >= len(s.traveltime_instant):
             return s.traveltime_instant[-1]
         if tt < 0:
@@ -830,6 +836,8 @@ class Link:
             The actual travel time.
         """
         tt = int(t//s.W.DELTAT)
+        if len(s.traveltime_actual) == 0:
+            return s.length/s.u
         if tt >= len(s.traveltime_actual):
             return s.traveltime_actual[-1]
         if tt < 0:
-- 
2.43.0


From 194b6011a0b14d8eff2729914a19908c18b43c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 31/83] fix: free-flow travel time and shortest distance of OD
 pairs use the best of parallel links, not the last one

---
 uxsim/analyzer.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 7393ae6..91785ed 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -140,20 +140,15 @@ class Analyzer:
         dn = s.W.DELTAN
 
         #自由旅行時間と最短距離
-        adj_mat_time = np.zeros([len(s.W.NODES), len(s.W.NODES)])
-        adj_mat_dist = np.zeros([len(s.W.NODES), len(s.W.NODES)])
+        adj_mat_time = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
+        adj_mat_dist = np.full([len(s.W.NODES), len(s.W.NODES)], np.inf)
         for link in s.W.LINKS:
             i = link.start_node.id
             j = link.end_node.id
-            if s.W.ADJ_MAT[i,j]:
-                adj_mat_time[i,j] = link.length/link.u
-                adj_mat_dist[i,j] = link.length
-                if link.capacity_in == 0: #流入禁止の場合は通行不可
-                    adj_mat_time[i,j] = np.inf
-                    adj_mat_dist[i,j] = np.inf
-            else:
-                adj_mat_time[i,j] = np.inf
-                adj_mat_dist[i,j] = np.inf
+            if link.capacity_in != 0: #流入禁止の場合は通行不可
+                #if there are parallel links, the fastest and the shortest ones matter
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
 
-- 
2.43.0


From ccf7620ac8a160177a944a2a45ad5a5cc0bc2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 32/83] fix: distances and free-flow travel times are reported
 also for OD pairs without completed trips, and total distance traveled
 includes them

---
 uxsim/analyzer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 91785ed..cacbf33 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -109,7 +109,8 @@ class Analyzer:
         if s.trip_completed:
             s.total_travel_time = np.sum(df["completed_trips"]*df["average_travel_time"])
             s.average_travel_time = s.total_travel_time/s.trip_completed
-            s.total_delay = np.sum(df["completed_trips"]*(df["average_travel_time"]-df["free_travel_time"]))
+            df_comp = df[df["completed_trips"] > 0]
+            s.total_delay = np.sum(df_comp["completed_trips"]*(df_comp["average_travel_time"]-df_comp["free_travel_time"]))
             s.average_delay = s.total_delay/s.trip_completed
         else:
             s.total_travel_time = -1
@@ -165,9 +166,10 @@ class Analyzer:
                 if veh.travel_time != -1:
                     s.od_trips_comp[o,d] += dn
                     s.od_tt[o,d].append(veh.travel_time)
-        for o,d in s.od_tt.keys():
-            s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
-            s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
+        for o,d in s.od_trips.keys():
+            if s.od_trips_comp[o,d]:
+                s.od_tt_ave[o,d] = np.average(s.od_tt[o,d])
+                s.od_tt_std[o,d] = np.std(s.od_tt[o,d])
             s.od_tt_free[o,d] = dist_time[o.id, d.id]
             s.od_dist_total[o,d] = np.sum(s.od_dist[o,d])
             s.od_dist_min[o,d] = dist_space[o.id, d.id]
@@ -1772,7 +1774,7 @@ class Analyzer:
                     var_distance_traveled = (total_tripss*distance_traveleds).sum()/total_trips    #wrong!
                     stddiv_distance_traveled = np.sqrt(var_distance_traveled)
 
-                    average_free_travel_time = (completed_tripss*free_travel_time_times).sum()/completed_trips
+                    average_free_travel_time = (completed_tripss*free_travel_time_times)[completed_tripss > 0].sum()/completed_trips
                 else:
                     average_distance_traveled = np.nan
                     var_distance_traveled = np.nan
-- 
2.43.0


From 633433628548dcb129b7eb16cd19916f659f1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 33/83] fix: final_state of vehicle_trip_to_pandas is the state
 of the vehicle, not its last logged one

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index cacbf33..a6d952d 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1635,7 +1635,7 @@ class Analyzer:
         out = [["name", "orig", "dest", "departure_time", "final_state", "travel_time", "average_speed", "distance_traveled"]]
         for veh in s.W.VEHICLES.values():
             veh_dest_name = veh.dest.name if veh.dest != None else None
-            veh_state = veh.log_state[-1]
+            veh_state = veh.state
             veh_ave_speed = np.average([v for v in veh.log_v if v != -1])
             veh_dist_traveled = veh.distance_traveled
 
-- 
2.43.0


From 92d25cbe22ecdac6d3649b5439be92e2d2a1bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 34/83] fix: vehicle_groups_to_pandas works without group_names

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index a6d952d..4caaa16 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1915,7 +1915,7 @@ class Analyzer:
         df_od = s.W.analyzer.od_to_pandas()
 
         if group_names == None: 
-            group_names = [f"group {i} including {groups[0].name}" for i in range(len(groups))]
+            group_names = [f"group {i} including {groups[i][0].name}" for i in range(len(groups))]
 
         total_trip_rec = []
         completed_trip_rec = []
-- 
2.43.0


From a1750fc8f868a23868c446b7d3dbaffd8f300a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 35/83] fix: area_to_pandas does not subtract remaining
 vehicles from the number of vehicles that left the links

---
 uxsim/analyzer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 4caaa16..a21bec5 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1853,8 +1853,7 @@ class Analyzer:
             vehicles_remain = df_links.loc[rows, "vehicles_remain"].sum()
 
             if traffic_volume > 0:
-                traffic_volume_rows = (
-                            df_links.loc[rows, "traffic_volume"] - df_links.loc[rows, "vehicles_remain"]).values
+                traffic_volume_rows = df_links.loc[rows, "traffic_volume"].values #vehicles that left each link. remaining vehicles are not included
                 total_travel_time = np.sum(df_links.loc[rows, "average_travel_time"].values * traffic_volume_rows)
                 total_free_time = np.sum(df_links.loc[rows, "free_travel_time"].values * traffic_volume_rows)
                 average_delay = max(total_travel_time / total_free_time - 1, 0)
-- 
2.43.0


From b13f9f1e9abe87b6ce6c17ff4324427a967fba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 36/83] fix: gps_like_log_to_pandas has no record with speed -1
 for the end of trips

---
 uxsim/analyzer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index a21bec5..f347b6f 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -1655,6 +1655,8 @@ class Analyzer:
         out = [["name", "t", "x", "y", "v"]]
         for veh in s.W.VEHICLES.values():
             for i,t in enumerate(veh.log_t):
+                if veh.log_link[i] == -1:
+                    continue
                 x, y = veh.get_xy_coords(t)
                 if (x, y) == (-1, -1):
                     continue
-- 
2.43.0


From 176e8d950c59239aa2a2d3db5367799bf76b9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:28 +0000
Subject: [PATCH 37/83] fix: get_xy_coords(t) finds the record for time t also
 for vehicles added during the simulation and for times beyond the log

---
 uxsim/uxsim.py             | 11 ++++++++---
 uxsim/uxsim_cpp_wrapper.py |  8 +++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 07a093f..03bd7d3 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy
+import csv, time, math, string, warnings, copy, bisect
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -1486,8 +1486,13 @@ class Vehicle:
             Time in seconds. If it is -1, the latest position is returned.
         """
         if t != -1:
-            link = s.log_link[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
-            xx = s.log_x[int(t/s.W.DELTAT/s.W.vehicle_logging_timestep_interval)]
+            i = bisect.bisect_right(s.log_t, t)-1 #the latest record at time t
+            if i < 0:
+                return (-1, -1)
+            if t < s.log_t[i]+s.W.DELTAT:
+                i = bisect.bisect_left(s.log_t, s.log_t[i]) #when the trip ends, there are 2 records of the same time. The first one is the position
+            link = s.log_link[i]
+            xx = s.log_x[i]
         else:
             link = s.link
             xx = s.x
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 2afa632..6485cb2 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -9,6 +9,7 @@ This module only handles:
   - Analyzer-compatible attribute exposure
 """
 
+import bisect
 import random
 import time
 import string
@@ -727,7 +728,12 @@ class CppVehicle:
     def get_xy_coords(self, t=-1):
         """Position now, or at time t based on the logs. Same rules as uxsim.Vehicle.get_xy_coords."""
         if t != -1:
-            i = int(t / self.W.DELTAT)
+            log_t = self.log_t
+            i = bisect.bisect_right(log_t, t) - 1
+            if i < 0:
+                return (-1, -1)
+            if t < log_t[i] + self.W.DELTAT:
+                i = bisect.bisect_left(log_t, log_t[i])
             link, x = self.log_link[i], self.log_x[i]
         else:
             link, x = self.link, self.x
-- 
2.43.0


From fb7a380c13aa3bf66164cf04ddd2e9e50b0f73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:28 +0000
Subject: [PATCH 38/83] fix: cumulative curves read during a C++ mode run end
 at the current time, so that link reports made then are not empty

---
 uxsim/uxsim_cpp_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6485cb2..f6c7bc3 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -310,7 +310,7 @@ class CppLink:
             if not '_cached_cum_arrival' in self.__dict__:
                 self._cached_cum_arrival = self._cpp_link.get_cum_arrival_np()
             return self._cached_cum_arrival
-        return self._cpp_link.get_cum_arrival_np()
+        return self._cpp_link.get_cum_arrival_np()[:self.W.T]   # until now, as in Python mode
 
     @property
     def cum_departure(self):
@@ -318,7 +318,7 @@ class CppLink:
             if not '_cached_cum_departure' in self.__dict__:
                 self._cached_cum_departure = self._cpp_link.get_cum_departure_np()
             return self._cached_cum_departure
-        return self._cpp_link.get_cum_departure_np()
+        return self._cpp_link.get_cum_departure_np()[:self.W.T]
 
     @property
     def traveltime_instant(self):
@@ -326,7 +326,7 @@ class CppLink:
             if not '_cached_traveltime_instant' in self.__dict__:
                 self._cached_traveltime_instant = self._cpp_link.get_traveltime_instant_np()
             return self._cached_traveltime_instant
-        return self._cpp_link.get_traveltime_instant_np()
+        return self._cpp_link.get_traveltime_instant_np()[:self.W.T]
 
     @property
     def traveltime_actual(self):
-- 
2.43.0


From 599eb75b22a65f91181349d0911f44f39e5a00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 39/83] fix: get_nearest_node finds the nearest node at any
 distance

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 03bd7d3..16d7435 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2603,7 +2603,7 @@ class World:
         object
             The nearest Node object.
         """
-        min_dist = 1e10
+        min_dist = math.inf
         nearest_node = None
         for node in W.NODES:
             dist = (node.x-x)**2 + (node.y-y)**2
-- 
2.43.0


From 106a5e4079b375809e556fc20dc03171ce87306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 40/83] fix: a link without start or end node is rejected
 before it is registered

---
 uxsim/uxsim.py             | 2 ++
 uxsim/uxsim_cpp_wrapper.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 16d7435..f73e485 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -509,6 +509,8 @@ class Link:
         #起点・終点ノード
         s.start_node = s.W.get_node(start_node)
         s.end_node = s.W.get_node(end_node)
+        if s.start_node == None or s.end_node == None:
+            raise ValueError(f"Both start_node and end_node must be specified at link {name}.")
 
         #リンク長
         s.length = length
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index f6c7bc3..a628905 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -207,6 +207,8 @@ class CppLink:
         self.W = W
         self.start_node = self.W.get_node(start_node)
         self.end_node = self.W.get_node(end_node)
+        if self.start_node is None or self.end_node is None:
+            raise ValueError(f"Both start_node and end_node must be specified at link {name}.")
         self.number_of_lanes = int(number_of_lanes)
         if self.number_of_lanes != number_of_lanes:
             raise ValueError(f"number_of_lanes must be an integer. Got {number_of_lanes} at {name}.")
-- 
2.43.0


From 9e20b4adc6ce6ba517d1f48e725625e4dc25e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 41/83] fix: override_signal with invalid groups changes
 nothing

---
 uxsim/uxsim.py             | 26 ++++++++++++--------------
 uxsim/uxsim_cpp_wrapper.py | 26 ++++++++++++--------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f73e485..f732ecf 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -165,6 +165,18 @@ class Node:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
+        phase_info = ddict(list)
+        if groups is not None: #check the arguments before changing anything
+            if len(groups) != len(signal):
+                raise ValueError("The length of `group` must match the length of `signal`.")
+
+            for i, group in enumerate(groups):
+                for link in group:
+                    l = s.W.get_link(link)
+                    if l not in s.inlinks.values():
+                        raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
+                    phase_info[l].append(i)
+
         s.signal = list(signal)
         s.cycle_length = sum(s.signal)
         s.signal_offset = signal_offset
@@ -174,20 +186,6 @@ class Node:
         if signal_offset_old != None:
             s.signal_offset = s.cycle_length-signal_offset_old
 
-        if groups is None:
-            return None
-        
-        if len(groups) != len(signal):
-            raise ValueError("The length of `group` must match the length of `signal`.")
-        
-        phase_info = ddict(list)
-        for i, group in enumerate(groups):
-            for link in group:
-                l = s.W.get_link(link)
-                if l not in s.inlinks.values():
-                    raise ValueError(f"Link {l.name} is not an incoming link of node {s.name}.")
-                phase_info[l].append(i)
-
         for key in phase_info:
             key.signal_group = phase_info[key]
 
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index a628905..c7c7b0d 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -156,6 +156,18 @@ class CppNode:
         signal_offset_old : float, optional
             Previous (wrong) signal offset in seconds. When specified, the new offset is calculated relative to the new cycle length. Kept for backward compatibility.
         """
+        phase_info = ddict(list)
+        if groups is not None:  # check the arguments before changing anything
+            if len(groups) != len(signal):
+                raise ValueError("The length of `group` must match the length of `signal`.")
+
+            for i, group in enumerate(groups):
+                for link in group:
+                    l = self.W.get_link(link)
+                    if l not in self.inlinks.values():
+                        raise ValueError(f"Link {l.name} is not an incoming link of node {self.name}.")
+                    phase_info[l].append(i)
+
         self.signal = signal
         self.signal_offset = signal_offset
         if reset:
@@ -165,20 +177,6 @@ class CppNode:
             self.signal_offset = self.cycle_length - signal_offset_old
         self._cpp_node.signal_offset = float(self.signal_offset)
 
-        if groups is None:
-            return None
-
-        if len(groups) != len(signal):
-            raise ValueError("The length of `group` must match the length of `signal`.")
-
-        phase_info = ddict(list)
-        for i, group in enumerate(groups):
-            for link in group:
-                l = self.W.get_link(link)
-                if l not in self.inlinks.values():
-                    raise ValueError(f"Link {l.name} is not an incoming link of node {self.name}.")
-                phase_info[l].append(i)
-
         for key in phase_info:
             key.signal_group = phase_info[key]
             key._cpp_link.signal_group = phase_info[key]
-- 
2.43.0


From 69a0b716aff7a8760ce721d40a77cf799bebfd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 42/83] fix: a demand that was rejected is not recorded as part
 of the scenario

---
 uxsim/scenario_reader_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index e883d4a..48fab3d 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -24,6 +24,9 @@ def demand_info_record(func):
         # self引数を除外
         arg_dict = dict(list(bound_args.arguments.items())[1:])
         
+        # 元の関数を呼び出す（エラーになった場合は保存しない）
+        result = func(self, *args, **kwargs)
+
         # direct_call=Trueが含まれている場合のみ保存
         if arg_dict.get('direct_call') == True:
             
@@ -34,8 +37,7 @@ def demand_info_record(func):
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
         
-        # 元の関数を呼び出す
-        return func(self, *args, **kwargs)
+        return result
     
     return wrapper
 
-- 
2.43.0


From 277bff23d96c257b2dcf497be1f7caeddcc59aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 43/83] fix: a link whose free-flow speed was changed to zero
 stops its traffic instead of failing with ZeroDivisionError

---
 uxsim/analyzer.py          |  6 ++++--
 uxsim/trafficpp/traffi.cpp |  2 +-
 uxsim/uxsim.py             | 12 ++++++------
 uxsim/uxsim_cpp_wrapper.py |  8 ++++----
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index f347b6f..526aefe 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -148,7 +148,7 @@ class Analyzer:
             j = link.end_node.id
             if link.capacity_in != 0: #流入禁止の場合は通行不可
                 #if there are parallel links, the fastest and the shortest ones matter
-                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u)
+                adj_mat_time[i,j] = min(adj_mat_time[i,j], link.length/link.u if link.u > 0 else np.inf)
                 adj_mat_dist[i,j] = min(adj_mat_dist[i,j], link.length)
         dist_time = floyd_warshall(adj_mat_time)
         dist_space = floyd_warshall(adj_mat_dist)
@@ -189,7 +189,7 @@ class Analyzer:
         for l in s.W.LINKS:
             s.linkc_volume[l] = l.cum_departure[-1]
             s.linkc_remain[l] = l.cum_arrival[-1]-l.cum_departure[-1]
-            s.linkc_tt_free[l] = l.length/l.u
+            s.linkc_tt_free[l] = l.length/l.u if l.u > 0 else np.inf
             if s.linkc_volume[l]:
                 tt = np.asarray(l.traveltime_actual)
                 mask = tt > 0
@@ -230,6 +230,8 @@ class Analyzer:
 
         for l in s.W.LINKS:
             #端部を外挿
+            if l.u <= 0:
+                continue
             for i in lange(l.xss):
                 if len(l.xss[i]):
                     if l.xss[i][0] != 0:
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 687d3fd..ddca29a 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -401,7 +401,7 @@ void Node::transfer(){
         }
 
         // Move-remain processing: carry residual distance to next link
-        double x_next_mr = chosen_veh->move_remain * outlink->vmax / inlink->vmax;
+        double x_next_mr = inlink->vmax > 0.0 ? chosen_veh->move_remain * outlink->vmax / inlink->vmax : 0.0;
         if (chosen_veh->leader != nullptr){
             double x_cong = chosen_veh->leader->x_old - outlink->delta_per_lane * w->delta_n;
             if (x_cong < chosen_veh->x){
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f732ecf..0fed09e 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -379,7 +379,7 @@ class Node:
                     assert veh.leader.lane == veh.lane
 
                 #走り残し処理
-                x_next = veh.move_remain*outlink.u/inlink.u
+                x_next = veh.move_remain*outlink.u/inlink.u if inlink.u > 0 else 0
                 if veh.leader != None:
                     x_cong = veh.leader.x_old - veh.link.delta_per_lane*veh.W.DELTAN
                     if x_cong < veh.x:
@@ -635,7 +635,7 @@ class Link:
         s.an = s.edie_dt*s.edie_dx
 
         #累積
-        s.traveltime_actual = np.array([s.length/s.u for t in range(s.W.TSIZE)])
+        s.traveltime_actual = np.array([s.length/s.u if s.u > 0 else np.inf for t in range(s.W.TSIZE)])
 
     def update(s):
         """
@@ -676,7 +676,7 @@ class Link:
             if speed > 0:
                 s.traveltime_instant.append(s.length/speed)
             else:
-                s.traveltime_instant.append(s.length/(s.u/100))
+                s.traveltime_instant.append(s.length/(s.u/100) if s.u > 0 else np.inf)
         else:
             s.traveltime_instant.append(s.traveltime_instant[-1])
 
@@ -763,7 +763,7 @@ class Link:
         entries = np.diff(s.cum_arrival, prepend=0) #multiple vehicles can enter in the same timestep
         ts = [i for i in np.flatnonzero(entries) if t0 <= i*s.W.DELTAT < t1]
         if len(ts) == 0:
-            return s.length/s.u
+            return s.length/s.u if s.u > 0 else np.inf
         return np.average([s.actual_travel_time(i*s.W.DELTAT) for i in ts], weights=entries[ts])
     
     def num_vehicles_t(s, t: float) -> float:
@@ -814,7 +814,7 @@ class Link:
         """
         tt = int(t//s.W.DELTAT)
         if len(s.traveltime_instant) == 0:
-            return s.length/s.u
+            return s.length/s.u if s.u > 0 else np.inf
         if tt >= len(s.traveltime_instant):
             return s.traveltime_instant[-1]
         if tt < 0:
@@ -837,7 +837,7 @@ class Link:
         """
         tt = int(t//s.W.DELTAT)
         if len(s.traveltime_actual) == 0:
-            return s.length/s.u
+            return s.length/s.u if s.u > 0 else np.inf
         if tt >= len(s.traveltime_actual):
             return s.traveltime_actual[-1]
         if tt < 0:
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index c7c7b0d..e02380f 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -265,7 +265,7 @@ class CppLink:
         self.jam_density_per_lane = jam_density_per_lane
         self.merge_priority = cpp.merge_priority
         self.q_star = self.capacity
-        self.k_star = self.capacity / self.u
+        self.k_star = self.capacity / self.u if self.u > 0 else 0
         self._capacity_out_remain = cpp.capacity_out_remain
         self._capacity_in_remain = cpp.capacity_in_remain
 
@@ -300,8 +300,8 @@ class CppLink:
         self.tn_mat = np.zeros(self.k_mat.shape)
         self.dn_mat = np.zeros(self.k_mat.shape)
         self.an = self.edie_dt * self.edie_dx
-        self.traveltime_actual = np.array([self.length / self.u for _ in range(self.W.TSIZE)])
-        self._free_flow_tt = self.length / self.u
+        self.traveltime_actual = np.array([self.length / self.u if self.u > 0 else np.inf for _ in range(self.W.TSIZE)])
+        self._free_flow_tt = self.length / self.u if self.u > 0 else np.inf
         self._deltat = self.W.DELTAT
 
     @property
@@ -421,7 +421,7 @@ class CppLink:
         entries = np.diff(self.cum_arrival[:self.W.T], prepend=0)
         ts = [i for i in np.flatnonzero(entries) if t0 <= i * self.W.DELTAT < t1]
         if len(ts) == 0:
-            return self.length / self.u
+            return self.length / self.u if self.u > 0 else np.inf
         return np.average([self.actual_travel_time(i * self.W.DELTAT) for i in ts], weights=entries[ts])
 
     def num_vehicles_t(self, t):
-- 
2.43.0


From 39dcfd2cca7c77fa038b79ee16cfe164c74addc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:00 +0000
Subject: [PATCH 44/83] fix: an automatic vehicle name of C++ mode that is
 already used as a custom name is an error as in Python mode, not a lost
 vehicle

---
 uxsim/uxsim_cpp_wrapper.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index e02380f..ff57b63 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -966,6 +966,13 @@ class CppWorld:
                         self.rng.choice(list(string.ascii_letters + string.digits), size=8))
                 else:
                     raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
+        elif str(self._cpp_world.vehicle_count) in self.VEHICLES:  # the automatic name is already used as a custom name
+            name = str(self._cpp_world.vehicle_count)
+            if kwargs.get('auto_rename', False):
+                name = name + "_renamed" + "".join(
+                    self.rng.choice(list(string.ascii_letters + string.digits), size=8))
+            else:
+                raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
 
         # Resolve links_prefer to C++ link name strings
         links_prefer = kwargs.get('links_prefer', [])
@@ -989,16 +996,9 @@ class CppWorld:
                 except (AttributeError, TypeError):
                     pass
 
-        self._register_new_cpp_vehicles()
+        self._register_new_cpp_vehicles(name)
 
         veh = self._veh_by_index[n_before]
-        if name is not None:
-            # The new vehicle is the last entry, so pop+reinsert keeps VEHICLES in C++ index order.
-            self.VEHICLES.pop(veh.name, None)
-            self.VEHICLES_LIVING.pop(veh.name, None)
-            veh.name = name
-            self.VEHICLES[name] = veh
-            self.VEHICLES_LIVING[name] = veh
         veh._cpp_vehicle.trip_abort = int(kwargs.get('trip_abort', 1))
         veh.attribute = kwargs.get('attribute')
         veh.user_attribute = kwargs.get('user_attribute')
@@ -1218,7 +1218,7 @@ class CppWorld:
             return 1
         return 0
 
-    def _register_new_cpp_vehicles(self):
+    def _register_new_cpp_vehicles(self, custom_name=None):
         """Register any new C++ vehicles into Python VEHICLES dict.
         Creates lightweight proxy objects — most attributes are read from C++ on demand."""
         start_idx = self._cpp_veh_registered_count
@@ -1237,7 +1237,9 @@ class CppWorld:
         for j in range(n_new):
             i = start_idx + j
             cpp_veh = get_veh(i)
-            name = cpp_veh.name
+            name = custom_name if custom_name is not None else cpp_veh.name
+            if name in vehicles:
+                raise ValueError(f"Vehicle name {name} already used by another vehicle. Please specify a unique name.")
             py_veh = CppVehicle.__new__(CppVehicle)
             py_veh.W = self
             py_veh.name = name
-- 
2.43.0


From fec198e9254d1517290b612ca578f1b64a062f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 45/83] fix: traffic states cover the whole link, also its end
 and a last shorter cell

---
 uxsim/analyzer.py          | 27 +++++++++++++++------------
 uxsim/uxsim.py             |  8 +++++++-
 uxsim/uxsim_cpp_wrapper.py |  6 +++++-
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index 526aefe..c829942 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -262,12 +262,14 @@ class Analyzer:
 
             dt = DELTATE
             dx = DELTAX
-            tn = [[ddict(lambda: 0) for i in range(int(MAXX/DELTAX))] for j in range(int(MAXT/DELTATE))]
-            dn = [[ddict(lambda: 0) for i in range(int(MAXX/DELTAX))] for j in range(int(MAXT/DELTATE))]
+            nt = int(MAXT/DELTATE)
+            nx = l.edie_cell_number()   #the last cell is shorter if dx does not divide the length
+            tn = [[ddict(lambda: 0) for i in range(nx)] for j in range(nt)]
+            dn = [[ddict(lambda: 0) for i in range(nx)] for j in range(nt)]
 
-            l.k_mat = np.zeros([int(MAXT/DELTATE), int(MAXX/DELTAX)])
-            l.q_mat = np.zeros([int(MAXT/DELTATE), int(MAXX/DELTAX)])
-            l.v_mat = np.zeros([int(MAXT/DELTATE), int(MAXX/DELTAX)])
+            l.k_mat = np.zeros([nt, nx])
+            l.q_mat = np.zeros([nt, nx])
+            l.v_mat = np.zeros([nt, nx])
 
             for v in lange(l.xss):
                 for i in lange(l.xss[v][:-1]):
@@ -283,7 +285,7 @@ class Analyzer:
                         v0 = 0
 
                     tt = int(t0//dt)
-                    xx = int(x0//dx)
+                    xx = min(int(x0//dx), nx-1) #vehicles at the end of the link are in the last cell
 
                     if v0 > 0:
                         #残り
@@ -292,8 +294,8 @@ class Analyzer:
                         tl0 = xl0/v0
                         tl1 = xl1/v0
 
-                        if tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
-                            if xx == x1//dx:
+                        if tt < nt:
+                            if xx == nx-1 or xx == x1//dx:
                                 #(x,t)
                                 dn[tt][xx][i0] += x1-x0
                                 tn[tt][xx][i0] += t1-t0
@@ -301,7 +303,7 @@ class Analyzer:
                                 #(x+n, t)
                                 jj = int(x1//dx-xx+1)
                                 for j in range(jj):
-                                    if xx+j < int(MAXX/DELTAX):
+                                    if xx+j < nx:
                                         if j == 0:
                                             dn[tt][xx+j][i0] += xl0
                                             tn[tt][xx+j][i0] += tl0
@@ -312,7 +314,7 @@ class Analyzer:
                                             dn[tt][xx+j][i0] += dx
                                             tn[tt][xx+j][i0] += dx/v0
                     else:
-                        if tt < int(MAXT/DELTATE) and xx < int(MAXX/DELTAX):
+                        if tt < nt:
                             dn[tt][xx][i0] += 0
                             tn[tt][xx][i0] += t1-t0
 
@@ -322,6 +324,7 @@ class Analyzer:
                     d = list(dn[i][j].values())*s.W.DELTAN
                     l.tn_mat[i,j] = sum(t)
                     l.dn_mat[i,j] = sum(d)
+                    DELTAX = min(dx, MAXX-j*dx)
                     l.k_mat[i,j] = l.tn_mat[i,j]/DELTATE/DELTAX
                     l.q_mat[i,j] = l.dn_mat[i,j]/DELTATE/DELTAX
             with np.errstate(invalid="ignore"):
@@ -438,7 +441,7 @@ class Analyzer:
             plt.figure(figsize=figsize)
             plt.title(l)
             plt.imshow(l.k_mat.T, origin="lower", aspect="auto",
-                extent=(0, int(s.W.TMAX/l.edie_dt)*l.edie_dt, 0, int(l.length/l.edie_dx)*l.edie_dx),
+                extent=(0, int(s.W.TMAX/l.edie_dt)*l.edie_dt, 0, l.edie_cell_number()*l.edie_dx),
                 interpolation="none", vmin=0, vmax=1/l.delta, cmap="inferno")
             if plot_signal:
                 signal_log = [i*s.W.DELTAT for i in lange(l.end_node.signal_log) if (l.end_node.signal_log[i] not in l.signal_group and len(l.end_node.signal)>1)]
@@ -2047,7 +2050,7 @@ class Analyzer:
         for l in s.W.LINKS:
             for i in range(l.k_mat.shape[0]):
                 for j in range(l.k_mat.shape[1]):
-                    out.append([l.name, i*l.edie_dt, j*l.edie_dx, l.edie_dt, l.edie_dx, l.q_mat[i,j], l.k_mat[i,j], l.v_mat[i,j]])
+                    out.append([l.name, i*l.edie_dt, j*l.edie_dx, l.edie_dt, min(l.edie_dx, l.length-j*l.edie_dx), l.q_mat[i,j], l.k_mat[i,j], l.v_mat[i,j]])
         s.df_link_traffic_state = pd.DataFrame(out[1:], columns=out[0])
         return s.df_link_traffic_state
 
diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 0fed09e..99c2ee2 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -627,7 +627,7 @@ class Link:
         #Euler型交通状態
         s.edie_dt = s.W.EULAR_DT
         s.edie_dx = s.edie_dx
-        s.k_mat = np.zeros([int(s.W.TMAX/s.edie_dt)+1, int(s.length/s.edie_dx)])
+        s.k_mat = np.zeros([int(s.W.TMAX/s.edie_dt)+1, s.edie_cell_number()])
         s.q_mat = np.zeros(s.k_mat.shape)
         s.v_mat = np.zeros(s.k_mat.shape)
         s.tn_mat = np.zeros(s.k_mat.shape)
@@ -637,6 +637,12 @@ class Link:
         #累積
         s.traveltime_actual = np.array([s.length/s.u if s.u > 0 else np.inf for t in range(s.W.TSIZE)])
 
+    def edie_cell_number(s):
+        """
+        The number of cells for the Euler-type traffic states. They cover the whole link; the last one is shorter than `edie_dx` if it does not divide the length.
+        """
+        return max(1, math.ceil(s.length/s.edie_dx-1e-6))
+
     def update(s):
         """
         Make necessary updates when the timestep is incremented.
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index ff57b63..6360618 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -294,7 +294,7 @@ class CppLink:
     def init_after_tmax_fix(self):
         """Initialize analyzer data structures after TMAX is known."""
         self.edie_dt = self.W.EULAR_DT
-        self.k_mat = np.zeros([int(self.W.TMAX / self.edie_dt) + 1, int(self.length / self.edie_dx)])
+        self.k_mat = np.zeros([int(self.W.TMAX / self.edie_dt) + 1, self.edie_cell_number()])
         self.q_mat = np.zeros(self.k_mat.shape)
         self.v_mat = np.zeros(self.k_mat.shape)
         self.tn_mat = np.zeros(self.k_mat.shape)
@@ -304,6 +304,10 @@ class CppLink:
         self._free_flow_tt = self.length / self.u if self.u > 0 else np.inf
         self._deltat = self.W.DELTAT
 
+    def edie_cell_number(self):
+        """The number of cells for the Euler-type traffic states (see Link.edie_cell_number)."""
+        return max(1, int(np.ceil(self.length / self.edie_dx - 1e-6)))
+
     @property
     def cum_arrival(self):
         if self.W._simulation_done:
-- 
2.43.0


From b4d0859f10468a5ee9504adce00cf3dbecfab79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 46/83] fix: worlds with large networks or many vehicles can be
 copied and saved

---
 uxsim/uxsim.py | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 99c2ee2..7d7546b 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -3,7 +3,7 @@ UXsim: Macroscopic/mesoscopic traffic flow simulator in a network.
 This `uxsim.py` is the core of UXsim. It summarizes the classes and methods that are essential for the simulation.
 """
 
-import csv, time, math, string, warnings, copy, bisect
+import csv, time, math, string, warnings, copy, copyreg, bisect
 from collections import deque, OrderedDict
 from collections import defaultdict as ddict
 import warnings
@@ -18,6 +18,29 @@ from .analyzer import *
 from .utils import *
 from .scenario_reader_writer import *
 
+def _restore_world(world_class, classes):
+    """
+    Make an empty world and its empty nodes, links and vehicles when unpickling.
+    """
+    W = world_class.__new__(world_class)
+    W._restored_members = {attr: {name: c.__new__(c) for name, c in classes[attr].items()} for attr in classes}
+    return W
+
+def _restore_member(W, attr, name):
+    """
+    Get a node, link, or vehicle of a world when unpickling.
+    """
+    return vars(W).get("_restored_members", vars(W))[attr][name]
+
+def _reduce_member(s, attr):
+    """
+    Pickle a node, link, or vehicle as a reference to the member of its world, whose contents are pickled by `World.__reduce__`.
+    """
+    if vars(s.W)[attr].get(s.name) is s:
+        return _restore_member, (s.W, attr, s.name)
+    return copyreg.__newobj__, (type(s),), vars(s)
+
+
 class Node:
     """
     Node in a network.
@@ -143,6 +166,9 @@ class Node:
         s.W.NODES.append(s)
         s.W.NODES_NAME_DICT[s.name] = s
     
+    def __reduce__(s):
+        return _reduce_member(s, "NODES_NAME_DICT")
+
     def __repr__(s):
         return f"<Node {s.name}>"
 
@@ -616,6 +642,9 @@ class Link:
             s.edie_dx = eular_dx
 
 
+    def __reduce__(s):
+        return _reduce_member(s, "LINKS_NAME_DICT")
+
     def __repr__(s):
         return f"<Link {s.name}>"
 
@@ -1141,6 +1170,9 @@ class Vehicle:
         if route_pref == None and s.dest != None and s.W.finalized and s.W.T > 0 and s.route_choice_principle == "homogeneous_DUO":
             s.route_pref_update()
 
+    def __reduce__(s):
+        return _reduce_member(s, "VEHICLES")
+
     def __repr__(s):
         return f"<Vehicle {s.name}: {s.state}, x={s.x}, link={s.link}>"
 
@@ -2862,6 +2894,21 @@ class World:
         else:
             plt.close("all")
     
+    def __reduce__(W):
+        """
+        Pickle the contents of the nodes, links, and vehicles as flat lists. Following the references between them would exceed the recursion limit in large networks.
+        """
+        members = {attr: vars(W)[attr] for attr in ("NODES_NAME_DICT", "LINKS_NAME_DICT", "VEHICLES")}
+        classes = {attr: {name: type(m) for name, m in members[attr].items()} for attr in members}
+        states = [(m, vars(m)) for attr in members for m in members[attr].values()]
+        return _restore_world, (type(W), classes), (vars(W), states)
+
+    def __setstate__(W, state):
+        vars(W).update(state[0])
+        for m, d in state[1]:
+            vars(m).update(d)
+        vars(W).pop("_restored_members", None)
+
     def copy(W):
         """
         Copy the World object.
-- 
2.43.0


From a288929519a999e051a95b92d83db2a11f1e211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 47/83] fix: scenarios with array-like attributes can be saved

---
 uxsim/scenario_reader_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 48fab3d..257db4a 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -84,7 +84,7 @@ def instance_to_arg_dict(instance):
         
         value = instance_vars.get(param_name, param.default)
       
-        if value == param.default:
+        if value is param.default or (type(value) is type(param.default) and value == param.default):
             continue
         
         args[param_name] = value
-- 
2.43.0


From cc2c97f0ae4153e22ff7ebafaf0f394a47b3a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 48/83] fix: loading a scenario keeps the order of different
 kinds of demand

---
 uxsim/scenario_reader_writer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uxsim/scenario_reader_writer.py b/uxsim/scenario_reader_writer.py
index 257db4a..5de166a 100644
--- a/uxsim/scenario_reader_writer.py
+++ b/uxsim/scenario_reader_writer.py
@@ -36,6 +36,7 @@ def demand_info_record(func):
             
             # 関数名と引数をdict_func_argsに格納
             self.demand_info[func_name].append(arg_dict_to_save)
+            self.demand_info["demand_order"].append(func_name)
         
         return result
     
@@ -196,7 +197,14 @@ def load_scenario(W, fname, network=True, demand=True):
         W.print(" Number of loaded nodes:", len(dat["Nodes"]))
         W.print(" Number of loaded links:", len(dat["Links"]))
     
-    if demand:
+    if demand and "demand_order" in dat:
+        #in the order of the original definition
+        remaining = {demand_type: iter(dat[demand_type]) for demand_type in set(dat["demand_order"])}
+        for demand_type in dat["demand_order"]:
+            getattr(W, demand_type)(**next(remaining[demand_type]))
+        for demand_type in remaining:
+            W.print(f" Number of loaded `{demand_type}`s:", len(dat[demand_type]))
+    elif demand:
         for demand_type in dat:
             if demand_type == 'adddemand':
                 for dem in dat[demand_type]:
-- 
2.43.0


From 9a51f04d335152dc1b9ab5b7f0e36192dfef96af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 49/83] fix: a changed jam density is saved with the scenario

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7d7546b..7894edc 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1000,6 +1000,7 @@ class Link:
     def change_jam_density(s, new_value):
         if new_value >= 0:
             s.jam_density = new_value
+            s.jam_density_per_lane = None
             s.kappa = new_value
             s.w = 1/s.tau/s.kappa
             s.capacity = s.u*s.w*s.kappa/(s.u+s.w)
-- 
2.43.0


From aa75604dd0de2298798678bce06ea335f1c4dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 50/83] fix: the last step on a link is not lost from accurate
 trajectories by rounding

---
 uxsim/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/analyzer.py b/uxsim/analyzer.py
index c829942..d6cbbe2 100644
--- a/uxsim/analyzer.py
+++ b/uxsim/analyzer.py
@@ -239,7 +239,7 @@ class Analyzer:
                         if x_remain/l.u > s.W.DELTAT*0.01:
                             l.xss[i].insert(0, 0)
                             l.tss[i].insert(0, l.tss[i][0]-x_remain/l.u)
-                    if l.length-l.u*s.W.DELTAT <= l.xss[i][-1] < l.length:
+                    if l.length-l.u*s.W.DELTAT-1e-6 <= l.xss[i][-1] < l.length: #1e-6 m is for rounding errors
                         x_remain = l.length-l.xss[i][-1]
                         if x_remain/l.u > s.W.DELTAT*0.01:
                             l.xss[i].append(l.length)
-- 
2.43.0


From c72a11fd64c9e2472ae2664b25c1c92e3a686204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 51/83] fix: cost and externality queries of the C++ engine are
 defined for any time

---
 uxsim/trafficpp/dta_solver.cpp |  2 +-
 uxsim/trafficpp/dta_solver.h   |  4 ++--
 uxsim/trafficpp/traffi.cpp     | 12 ++++++++----
 uxsim/trafficpp/utils.h        | 14 ++++++++++++++
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index e75e598..885b1ad 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -94,7 +94,7 @@ double dta_compute_route_cost_dso(World *w, const std::vector<int> &route_link_i
     for (int lid : route_link_ids){
         Link *ln = w->links[lid];
         double ltt = dta_get_actual_travel_time(ln, t);
-        int ts = (int)(t / w->delta_t);
+        int ts = to_int(t / w->delta_t);
         ext_total += ln->estimate_congestion_externality(ts);
         tt_total += ltt;
         t += ltt;
diff --git a/uxsim/trafficpp/dta_solver.h b/uxsim/trafficpp/dta_solver.h
index 7787af2..d2fa4a9 100644
--- a/uxsim/trafficpp/dta_solver.h
+++ b/uxsim/trafficpp/dta_solver.h
@@ -45,7 +45,7 @@ ODRouteSetStore dta_enumerate_od_route_sets_ids(World *w, int k, unsigned int se
 // Get toll value at time t (from toll_timeseries or route_choice_penalty)
 inline double dta_get_toll(const Link *ln, double t) {
     if (!ln->toll_timeseries.empty()){
-        int ts = (int)(t / ln->w->delta_t);
+        int ts = to_int(t / ln->w->delta_t);
         if (ts < 0) ts = 0;
         if (ts >= (int)ln->toll_timeseries.size()) ts = (int)ln->toll_timeseries.size() - 1;
         return ln->toll_timeseries[ts];
@@ -58,7 +58,7 @@ inline double dta_get_actual_travel_time(const Link *ln, double t) {
     ln->ensure_traveltime_real();
     int n = (int)ln->traveltime_real.size();
     if (n == 0) return ln->length / ln->vmax;
-    int idx = (int)(t / ln->w->delta_t);
+    int idx = to_int(t / ln->w->delta_t);
     if (idx < 0) idx = 0;
     if (idx >= n) idx = n - 1;
     return ln->traveltime_real[idx];
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ddca29a..ad4cabd 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -652,6 +652,9 @@ void Link::ensure_traveltime_real() const {
 double Link::estimate_congestion_externality(int ts){
     ensure_traveltime_real();
     int n = (int)traveltime_real.size();
+    if (ts < 0 || ts >= n){
+        return 0.0; // outside of the simulated period
+    }
     double dt = w->delta_t;
     double free_flow_tt = length / vmax * 1.01;
 
@@ -659,8 +662,9 @@ double Link::estimate_congestion_externality(int ts){
     int ts_end = ts;
     for (int i = ts; i < n; i++){
         double tt_i = traveltime_real[i];
-        int future_idx = i + (int)(tt_i / dt);
-        if (future_idx >= n) break;
+        int delay = to_int(tt_i / dt);
+        if (delay < 0 || delay >= n - i) break;
+        int future_idx = i + delay;
         if (tt_i > free_flow_tt && arrival_curve[future_idx] - departure_curve[future_idx] > 0){
             ts_end = i;
         } else {
@@ -675,7 +679,7 @@ double Link::estimate_congestion_externality(int ts){
     // Step 2: Find leader headway (backward scan)
     int ts_out = 0;
     if (ts >= 0 && ts < n){
-        ts_out = (int)(ts + (int)(traveltime_real[ts] / dt)) + 1;
+        ts_out = ts + std::min(std::max(to_int(traveltime_real[ts] / dt), 0), n) + 1;
     }
     if (ts_out >= n) ts_out = n - 1;
     int ts_out_leader = ts_out;
@@ -695,7 +699,7 @@ double World::estimate_congestion_externality_route(const vector<Link*> &route,
     double exts = 0;
     for (auto ln : route){
         ln->ensure_traveltime_real();
-        int ts = (int)(t / delta_t);
+        int ts = to_int(t / delta_t);
         exts += ln->estimate_congestion_externality(ts);
         // Advance t by the actual travel time on this link
         int n = (int)ln->traveltime_real.size();
diff --git a/uxsim/trafficpp/utils.h b/uxsim/trafficpp/utils.h
index 276c387..379f06a 100644
--- a/uxsim/trafficpp/utils.h
+++ b/uxsim/trafficpp/utils.h
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <map>
 #include <cstdint>
+#include <limits>
 
 using std::vector, std::cout, std::endl;
 
@@ -15,6 +16,19 @@ using std::vector, std::cout, std::endl;
 // MARK: Utility
 // -----------------------------------------------------------------------
 
+/**
+ * to_int: truncate like a cast to int, but also defined for values that do not fit in int (nearest int; NaN gives the smallest one), e.g. timesteps far outside of the simulated period.
+ */
+inline int to_int(double x) {
+    if (!(x > (double)std::numeric_limits<int>::min())){
+        return std::numeric_limits<int>::min();
+    }
+    if (x >= (double)std::numeric_limits<int>::max()){
+        return std::numeric_limits<int>::max();
+    }
+    return (int)x;
+}
+
 /**
  * remove_from_vector: remove a particular pointer from a vector.
  */
-- 
2.43.0


From c3fdb479925efc5bebe882ba07e5cc13fa5bb77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 52/83] fix: C++ engine rejects links without lanes and nodes
 or links added after finalization instead of crashing

---
 uxsim/trafficpp/traffi.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index ad4cabd..0a48375 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -54,6 +54,9 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
       signal_offset(signal_offset),
       flow_capacity(flow_capacity),
       number_of_lanes(number_of_lanes){
+    if (w->flag_initialized){
+        throw std::runtime_error("Node " + node_name + " cannot be added after the scenario was finalized");
+    }
     w->nodes.push_back(this);
     // Per-node RNG stream (kind=1) and stat partial sum, seeded/sized by node id.
     w->node_rngs.push_back(make_entity_rng(w->random_seed, 1u, (unsigned int)id));
@@ -492,6 +495,12 @@ Link::Link(
       signal_group(signal_group),
       route_choice_penalty(0.0){
 
+    if (w->flag_initialized){
+        throw std::runtime_error("Link " + link_name + " cannot be added after the scenario was finalized");
+    }
+    if (number_of_lanes < 1){
+        throw std::invalid_argument("Link " + link_name + " must have at least one lane, got " + std::to_string(number_of_lanes));
+    }
     if (this->kappa <= 0.0){
         this->kappa = 0.2;
     }
@@ -512,8 +521,8 @@ Link::Link(
     }
     this->capacity_in_remain = this->capacity_in * w->delta_t;
 
-    start_node = w->nodes_map[start_node_name];
-    end_node = w->nodes_map[end_node_name];
+    start_node = w->get_node(start_node_name);
+    end_node = w->get_node(end_node_name);
 
     arrival_curve.resize(w->total_timesteps, 0.0);
     departure_curve.resize(w->total_timesteps, 0.0);
-- 
2.43.0


From 66065ca622710647056be18c18b1ab30ccc55da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 53/83] fix: C++ engine accepts any departure and stop time and
 rejects a zero travel time interval instead of crashing

---
 uxsim/trafficpp/traffi.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 0a48375..12b5fd3 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1339,7 +1339,7 @@ void World::update_adj_time_matrix(){
 int World::resolve_num_threads() const {
 #ifdef _OPENMP
     if (num_threads == -1) return omp_get_max_threads();
-    return num_threads;
+    return std::max(num_threads, 1);
 #else
     return 1;
 #endif
@@ -1674,12 +1674,16 @@ void World::main_loop(double duration_t=-1, double until_t=-1){
     int start_ts, end_ts;
     start_ts = timestep;
 
+    if (instantaneous_TT_timestep_interval < 1){
+        throw std::invalid_argument("instantaneous_TT_timestep_interval must be at least 1");
+    }
+
     if (duration_t < 0 && until_t < 0){
         end_ts = total_timesteps;
     } else if (duration_t >= 0 && until_t < 0){
-        end_ts = static_cast<size_t>(floor((duration_t+time)/delta_t)) + 1;
+        end_ts = to_int(std::min((duration_t+time)/delta_t, (double)total_timesteps)) + 1;
     } else if (duration_t < 0 && until_t >= 0){
-        end_ts = static_cast<size_t>(floor(until_t/delta_t)) + 1;
+        end_ts = to_int(std::min(until_t/delta_t, (double)total_timesteps)) + 1;
     } else {
         throw std::runtime_error("Cannot specify both `duration_t` and `until_t` parameters for `World.main_loop`");
     }
@@ -1699,9 +1703,13 @@ void World::main_loop(double duration_t=-1, double until_t=-1){
     departure_buckets.assign(total_timesteps, {});
     for (auto veh : vehicles){
         if (veh->state == vsHOME){
-            int ts0 = (int)(veh->departure_time / delta_t);
-            while ((double)ts0 * delta_t < veh->departure_time) ts0++;
-            if (ts0 < start_ts) ts0 = start_ts;
+            if (!(veh->departure_time <= ((double)total_timesteps - 1) * delta_t)) continue; // after the end
+            int ts0 = start_ts;
+            if (veh->departure_time > (double)start_ts * delta_t){
+                ts0 = (int)(veh->departure_time / delta_t);
+                while ((double)ts0 * delta_t < veh->departure_time) ts0++;
+                if (ts0 < start_ts) ts0 = start_ts;
+            }
             if (ts0 < (int)total_timesteps) departure_buckets[ts0].push_back(veh);
         }
     }
-- 
2.43.0


From 944b1cb2847f59c0632312f26e042fcf4f4c6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 54/83] fix: C++ engine checks periods, options, signal phases
 and link ids instead of reading outside its data

---
 uxsim/trafficpp/bindings.cpp   |  3 ++-
 uxsim/trafficpp/dta_solver.cpp |  6 +++---
 uxsim/trafficpp/traffi.cpp     | 31 +++++++++++++++++++++++++------
 uxsim/trafficpp/utils.h        |  9 ++++++++-
 4 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/uxsim/trafficpp/bindings.cpp b/uxsim/trafficpp/bindings.cpp
index ed4f075..52a6452 100644
--- a/uxsim/trafficpp/bindings.cpp
+++ b/uxsim/trafficpp/bindings.cpp
@@ -26,7 +26,7 @@ namespace nb = nanobind;
 template<typename T>
 nb::ndarray<nb::numpy, T, nb::ndim<1>> make_numpy_copy(const T* data, size_t n) {
     T* copy = new T[n];
-    std::memcpy(copy, data, n * sizeof(T));
+    if (n > 0) std::memcpy(copy, data, n * sizeof(T));
     nb::capsule owner(copy, [](void* p) noexcept { delete[] static_cast<T*>(p); });
     return nb::ndarray<nb::numpy, T, nb::ndim<1>>(copy, {n}, owner);
 }
@@ -652,6 +652,7 @@ NB_MODULE(uxsim_cpp, m) {
                  std::vector<std::vector<int>> routes(nv);
                  for (size_t i = 0; i < nv; i++) {
                      int64_t s = off[i], e = off[i + 1];
+                     if (s < 0 || e > (int64_t)link_ids.shape(0)) throw std::out_of_range("offsets exceed link_ids");
                      if (e > s) routes[i].assign(ids + s, ids + e);
                  }
                  dta_batch_enforce_routes(&w, routes);
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index 885b1ad..0730edd 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -62,7 +62,7 @@ double dta_compute_route_travel_time(const World *w, const std::vector<int> &rou
     double tt_total = 0.0;
     double t = departure_time;
     for (int lid : route_link_ids){
-        Link *ln = w->links[lid];
+        Link *ln = w->links.at(lid);
         double ltt = dta_get_actual_travel_time(ln, t);
         tt_total += ltt;
         t += ltt;
@@ -77,7 +77,7 @@ double dta_compute_route_cost_due(const World *w, const std::vector<int> &route_
     double toll_total = 0.0;
     double t = departure_time;
     for (int lid : route_link_ids){
-        Link *ln = w->links[lid];
+        Link *ln = w->links.at(lid);
         double ltt = dta_get_actual_travel_time(ln, t);
         toll_total += dta_get_toll(ln, t);
         tt_total += ltt;
@@ -92,7 +92,7 @@ double dta_compute_route_cost_dso(World *w, const std::vector<int> &route_link_i
     double ext_total = 0.0;
     double t = departure_time;
     for (int lid : route_link_ids){
-        Link *ln = w->links[lid];
+        Link *ln = w->links.at(lid);
         double ltt = dta_get_actual_travel_time(ln, t);
         int ts = to_int(t / w->delta_t);
         ext_total += ln->estimate_congestion_externality(ts);
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 12b5fd3..3ab6ae0 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -97,7 +97,7 @@ Node::Node(World *w, const string &node_name, double x, double y, vector<double>
     if (flow_capacity >= 0.0){
         this->flow_capacity_remain = flow_capacity * w->tau * w->delta_n;
         if (number_of_lanes <= 0){
-            this->number_of_lanes = (int)std::ceil(flow_capacity / 0.8);
+            this->number_of_lanes = to_int(std::ceil(flow_capacity / 0.8));
         }
     } else {
         this->flow_capacity = -1.0;
@@ -200,6 +200,10 @@ void Node::generate(){
 void Node::signal_update(){
     // Match Python's signal_control() exactly
     if (signal_intervals.size() > 1){
+        if (signal_phase < 0 || (size_t)signal_phase >= signal_intervals.size()){ // the plan became shorter
+            signal_phase = 0;
+            signal_t = 0;
+        }
         if (signal_t > signal_intervals[signal_phase]){
             signal_phase++;
             signal_t = 0;
@@ -224,7 +228,7 @@ void Node::adjust_node_capacity(){
         flow_capacity = (capacity_in + capacity_out) / 2.0;
         flow_capacity_remain = flow_capacity * w->delta_t;
         if (number_of_lanes <= 0){
-            number_of_lanes = (int)std::ceil(flow_capacity / 0.8); //the number of lanes is determined by assuming 0.8 veh/s capacity per lane
+            number_of_lanes = to_int(std::ceil(flow_capacity / 0.8)); //the number of lanes is determined by assuming 0.8 veh/s capacity per lane
         }
     }
 }
@@ -1219,8 +1223,8 @@ World::World(
       route_choice_update_gradual(route_choice_update_gradual),
       no_cyclic_routing(no_cyclic_routing),
       delta_t(tau * delta_n),
-      total_timesteps((int)(t_max / (tau * delta_n))),
-      timestep_for_route_update((int)(duo_update_time / (tau * delta_n))),
+      total_timesteps(to_int(t_max / (tau * delta_n))),
+      timestep_for_route_update(to_int(duo_update_time / (tau * delta_n))),
       time(0),
       node_id(0),
       link_id(0),
@@ -1236,13 +1240,19 @@ World::World(
       trips_completed(0.0),
       flag_initialized(false),
       writer(&std::cout){
+    if (!(delta_t > 0) || !std::isfinite(delta_t)){
+        throw std::invalid_argument("The platoon size and the reaction time must be positive");
+    }
+    if (!(t_max >= 0 && t_max / delta_t < INT_MAX)){
+        throw std::invalid_argument("The simulation duration must not be negative or too large");
+    }
     // The route update interval has a minimum of 1 timestep, like Python's DELTAT_ROUTE.
     // Without the clamp, duo_update_time < delta_t would yield 0 and disable route updates entirely.
     if (timestep_for_route_update == 0){
         timestep_for_route_update = 1;
     }
     show_progress = 1;
-    show_progress_deltat_timestep = (size_t)(600.0 / delta_t);  // Python World default: show_progress_deltat=600
+    show_progress_deltat_timestep = to_int(600.0 / delta_t);  // Python World default: show_progress_deltat=600
     sim_start_time = std::chrono::steady_clock::now();
 }
 
@@ -1263,6 +1273,9 @@ World::~World(){
 }
 
 void World::set_t_max(double new_t_max){
+    if (!(new_t_max >= 0 && new_t_max / delta_t < INT_MAX)){
+        throw std::invalid_argument("The simulation duration must not be negative or too large");
+    }
     t_max = new_t_max;
     total_timesteps = (size_t)(t_max / delta_t);
     for (auto ln : links){
@@ -1296,6 +1309,9 @@ void World::initialize_adj_matrix(){
 }
 
 void World::update_adj_time_matrix(){
+    if (!flag_initialized){
+        throw std::runtime_error("update_adj_time_matrix() error: the scenario is not finalized");
+    }
     double noise = route_choice_uncertainty;
     // Reset the cells written by links (running-average state).
     // Matches Python's route_search_all, which rebuilds adj_mat_time from a zero matrix each call.
@@ -1309,7 +1325,7 @@ void World::update_adj_time_matrix(){
     for (auto ln : links){
         int i = ln->start_node->id;
         int j = ln->end_node->id;
-        double tt = ln->traveltime_instant[timestep];
+        double tt = timestep < ln->traveltime_instant.size() ? ln->traveltime_instant[timestep] : 0.0;
         if (tt <= 0.0){
             tt = ln->length / ln->vmax;
         }
@@ -1956,6 +1972,9 @@ inline void add_demand(
         vector<string> links_preferred_str = {}){
     // Iterate over integer timesteps, mirroring Python's adddemand: `for t in range(int(t_start/DELTAT), int(t_end/DELTAT))`.
     // This keeps the iteration count and the timestep-quantized departure times identical to Python even when t_start/t_end are not multiples of delta_t.
+    if (!(std::abs(start_t / w->delta_t) < INT_MAX && std::abs(end_t / w->delta_t) < INT_MAX) || !std::isfinite(flow)){
+        throw std::invalid_argument("add_demand() error: the period or the flow is not a finite number or too large");
+    }
     int ts_start = (int)(start_t / w->delta_t);
     int ts_end = (int)(end_t / w->delta_t);
     double demand = 0.0;
diff --git a/uxsim/trafficpp/utils.h b/uxsim/trafficpp/utils.h
index 379f06a..088003e 100644
--- a/uxsim/trafficpp/utils.h
+++ b/uxsim/trafficpp/utils.h
@@ -9,6 +9,7 @@
 #include <map>
 #include <cstdint>
 #include <limits>
+#include <cmath>
 
 using std::vector, std::cout, std::endl;
 
@@ -56,6 +57,12 @@ inline double random_range_float64(
     double min_factor,
     double max_factor,
     std::mt19937 &rng) {
+    if (!(min_factor <= max_factor)){
+        std::swap(min_factor, max_factor);
+    }
+    if (!std::isfinite(min_factor) || !std::isfinite(max_factor)){
+        return min_factor;
+    }
     std::uniform_real_distribution<double> dist(min_factor, max_factor);
     return dist(rng);
 }
@@ -82,7 +89,7 @@ inline T *random_choice(const vector<T *> &items, const vector<double> &weights,
     for (auto w : weights){
         wsum += w;
     }
-    if (wsum <= 0.0){
+    if (!(wsum > 0.0) || !std::isfinite(wsum)){
         // Fallback: pick uniformly
         std::uniform_int_distribution<int> uni(0, (int)items.size() - 1);
         return items[uni(rng)];
-- 
2.43.0


From 06bf1f34dd167156a60e63046925e9c18b0668ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:21 +0000
Subject: [PATCH 55/83] fix: vehicles added by a user function in the first
 time step use the route information of that step

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 7894edc..f2322df 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1168,7 +1168,7 @@ class Vehicle:
         s.W.VEHICLES_LIVING[s.name] = s
 
         #a vehicle added during the simulation uses the current route information from the beginning
-        if route_pref == None and s.dest != None and s.W.finalized and s.W.T > 0 and s.route_choice_principle == "homogeneous_DUO":
+        if route_pref == None and s.dest != None and s.W.finalized and len(s.W.ROUTECHOICE.dist_record) > 0 and s.route_choice_principle == "homogeneous_DUO":
             s.route_pref_update()
 
     def __reduce__(s):
-- 
2.43.0


From 4586a4a71f05436109eaa609deec07bdabe2c694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 56/83] fix: the current time is that of the current time step
 during the whole step, regardless of partial execution

---
 uxsim/uxsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index f2322df..0236cb6 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -2496,6 +2496,7 @@ class World:
         #print("preping:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
         for W.T in range(start_ts, end_ts+1):
             #print("execing:", W.T, start_ts, end_ts, W.check_simulation_ongoing())
+            W.TIME = W.T*W.DELTAT
             if W.T == 0:
                 W.print("      time| # of vehicles| ave speed| computation time", flush=True)
                 W.analyzer.show_simulation_progress()
-- 
2.43.0


From f3d4cb4c93c3618945c4b9d8988d3fd48e0891e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 57/83] fix: default names of trip requests are unique

---
 uxsim/TaxiHandler/TaxiHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 5581da6..1db95d5 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -103,7 +103,7 @@ class TaxiHandler:
             An optional attribute of the trip request. This can be used to store any information by users' need.
         """
         if name == None:
-            name = len(s.trip_requests)
+            name = len(s.trip_requests_all)
         s.trip_requests.append(TripRequest(s.W, s, orig, dest, depart_time, name, attribute=attribute))
         s.trip_requests_all.append(s.trip_requests[-1])
     
-- 
2.43.0


From f2436cc26eabf0ad8ccb97d81027ec5515165bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 58/83] fix: a vacant taxi accepts a destination given by its
 name

---
 uxsim/uxsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index 0236cb6..cbad3a6 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1418,7 +1418,7 @@ class Vehicle:
         """
         if s.mode == "taxi":
             if s.dest == None:
-                s.dest = dest
+                s.dest = s.W.get_node(dest)
                 s.route_pref_update(weight=1)
             else:
                 if order == -1:
-- 
2.43.0


From d45861c7e62f845a139a979f827e545e4976fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 59/83] fix: a taxi whose next destination is the node where it
 is does not reuse its old next link

---
 uxsim/uxsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uxsim/uxsim.py b/uxsim/uxsim.py
index cbad3a6..caa9b1f 100644
--- a/uxsim/uxsim.py
+++ b/uxsim/uxsim.py
@@ -1393,6 +1393,9 @@ class Vehicle:
 
                 else:
                     s.route_next_link = None
+            else:
+                #the next destination of a taxi is the node where it is now
+                s.route_next_link = None
         else:
             outlinks = list(s.link.end_node.outlinks.values())
             if len(outlinks):
-- 
2.43.0


From 122b0606a72f0a20407ac255c70236419262955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 60/83] fix: trip requests that meet at a node of the same
 taxi, or end where they start, do not lose each other's events

---
 uxsim/TaxiHandler/TaxiHandler.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/uxsim/TaxiHandler/TaxiHandler.py b/uxsim/TaxiHandler/TaxiHandler.py
index 1db95d5..acb6e62 100644
--- a/uxsim/TaxiHandler/TaxiHandler.py
+++ b/uxsim/TaxiHandler/TaxiHandler.py
@@ -3,8 +3,23 @@ Submodule for handling taxis.
 """
 
 import random, math
+from functools import partial
 import pandas as pd
 
+def add_node_event(vehicle, node, event):
+    """
+    Adds a one-time event of a vehicle at a node. It takes place after the events already waiting at this node.
+    """
+    vehicle.node_event[node] = partial(_node_events, vehicle, node, vehicle.node_event.get(node), event)
+
+def _node_events(vehicle, node, previous, event):
+    if previous is None:
+        del vehicle.node_event[node]
+    else:
+        vehicle.node_event[node] = previous
+        previous()
+    event()
+
 class TripRequest:
     """
     A class representing a trip request (or travelers, passengers, cargo, etc.).
@@ -52,11 +67,9 @@ class TripRequest:
         """
         #print(f"{s.W.TIME}: {s} is getting on a taxi {s.taxi}")        
         s.taxi.add_dest(s.dest)
-        s.taxi.node_event[s.dest] = s.arrive_at_dest
+        add_node_event(s.taxi, s.dest, s.arrive_at_dest)
 
         s.get_taxi_time = s.W.TIME
-        
-        del s.taxi.node_event[s.orig]
     
     def arrive_at_dest(s):
         """
@@ -64,8 +77,6 @@ class TripRequest:
         """
         #print(f"{s.W.TIME}: {s} arrived at the destination {s.dest}")
         s.arrival_time = s.W.TIME
-        
-        del s.taxi.node_event[s.dest]
 
 class TaxiHandler:
     """
@@ -122,7 +133,7 @@ class TaxiHandler:
             raise ValueError("Travel request not found in the list of trip requests")
 
         vehicle.add_dest(trip_request.orig)
-        vehicle.node_event[trip_request.orig] = trip_request.get_on_taxi
+        add_node_event(vehicle, trip_request.orig, trip_request.get_on_taxi)
         trip_request.taxi = vehicle
         s.trip_requests.remove(trip_request)
     
-- 
2.43.0


From ee000b24137769f4f0adaa37c28c659366980035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 61/83] fix: the k shortest routes distinguish parallel links
 instead of concatenating them, and only k routes are searched

---
 uxsim/Utilities/Utilities.py | 72 ++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2005829..b4fe61d 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -9,6 +9,7 @@ from scipy.sparse.csgraph import dijkstra
 import tqdm
 import random
 from collections import defaultdict
+from itertools import islice
 from typing import DefaultDict
 import warnings
 
@@ -51,6 +52,35 @@ def generate_grid_network(W, imax, jmax, **kwargs):
     return nodes, links
 
 
+def _k_shortest_routes(W, source, target, k, link_cost, print_stats):
+    """
+    Core of `enumerate_k_shortest_routes` and `enumerate_k_shortest_routes_on_t`. `link_cost` is a function of Link. Returns the routes and their costs.
+    """
+    G = nx.DiGraph()
+    for l in W.LINKS:
+        u, v = l.start_node.name, l.end_node.name
+        if G.has_edge(u, v):
+            #parallel link: goes through its own virtual vertex, so that each of the links can be chosen
+            G.add_edge(u, (l.name, u, v), weight=link_cost(l), link=l.name)
+            G.add_edge((l.name, u, v), v, weight=0, link=None)
+        else:
+            G.add_edge(u, v, weight=link_cost(l), link=l.name)
+
+    routes = []
+    costs = []
+    for path in islice(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'), k):
+        edges = [G[u][v] for u, v in zip(path[:-1], path[1:])]
+        route = [e['link'] for e in edges if e['link'] is not None]
+        path_weight = sum([e['weight'] for e in edges])
+        if print_stats:
+            print(f"Route: {route}, Cost: {path_weight}")
+
+        routes.append(route)
+        costs.append(path_weight)
+
+    return routes, costs
+
+
 def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l: l.length/l.u, print_stats=0, return_cost=False):
     """
     Enumerate the k shortest routes between two nodes in a network. By default, `enumerate_k_shortest_routes(W, "O", "D")` returns the shortest path from node "O" to "D" based on the free-flow travel time. 
@@ -79,27 +109,8 @@ def enumerate_k_shortest_routes(W, source, target, k=1, cost_function=lambda l:
     costs : list
         A list of costs of the routes if return_cost is True.
     """
-    G = nx.DiGraph()
-    for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l))
+    routes, costs = _k_shortest_routes(W, source, target, k, cost_function, print_stats)
 
-    k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
-    routes = []
-    costs = []
-    for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
-
-        path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
-        if print_stats:
-            print(f"Route: {route}, Cost: {path_weight}")
-            
-        routes.append(route)
-        costs.append(path_weight)
-    
     if return_cost:
         return routes, costs
     else:
@@ -136,27 +147,8 @@ def enumerate_k_shortest_routes_on_t(W, source, target, t, k=1, cost_function=la
     costs : list
         A list of costs of the routes if return_cost is True.
     """
-    G = nx.DiGraph()
-    for l in W.LINKS:
-        G.add_edge(l.start_node.name, l.end_node.name, weight=cost_function(l, t))
+    routes, costs = _k_shortest_routes(W, source, target, k, lambda l: cost_function(l, t), print_stats)
 
-    k_shortest_paths = list(nx.shortest_simple_paths(G, W.get_node(source).name, W.get_node(target).name, weight='weight'))[:k]
-    routes = []
-    costs = []
-    for path in k_shortest_paths:
-        route = []
-        for n in path[:-1]:
-            for l in W.LINKS:
-                if l.start_node.name == n and l.end_node.name == path[path.index(n)+1]:
-                    route.append(l.name)
-
-        path_weight = sum([G[u][v]['weight'] for u, v in zip(path[:-1], path[1:])])
-        if print_stats:
-            print(f"Route: {route}, Cost: {path_weight}")
-            
-        routes.append(route)
-        costs.append(path_weight)
-    
     if return_cost:
         return routes, costs
     else:
-- 
2.43.0


From b347d0eabdffed9d82a6248e6e77b1280a64dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 62/83] fix: random route enumeration includes the shortest
 route of networks with parallel links

---
 uxsim/Utilities/Utilities.py | 16 ++++++++--------
 uxsim/trafficpp/traffi.cpp   | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index b4fe61d..27ea5e4 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -185,10 +185,12 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
     while 1:
         G = nx.DiGraph()
         for l in W.LINKS:
-            if iteration == 0:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u)
-            else:
-                G.add_edge(l.start_node.name, l.end_node.name, weight=l.length/l.u*random.uniform(0,100))
+            weight = l.length/l.u
+            if iteration > 0:
+                weight *= random.uniform(0,100)
+            #among parallel links, the one with the smallest weight is used
+            if not G.has_edge(l.start_node.name, l.end_node.name) or weight < G[l.start_node.name][l.end_node.name]["weight"]:
+                G.add_edge(l.start_node.name, l.end_node.name, weight=weight, link=l.name)
 
         paths = dict(nx.all_pairs_dijkstra_path(G))
         for source in paths:
@@ -196,13 +198,11 @@ def enumerate_k_random_routes(W, k) -> DefaultDict[tuple[str], list[str]]:
                 if len(dict_routes[source, dest]) < k:
                     path = []
                     for i in range(0,len(paths[source][dest])-1):
-                        l = W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]]
-                        #print(W.NODE_PAIR_LINKS[paths[source][dest][i], paths[source][dest][i+1]], end="")
-                        path.append(l.name)
+                        path.append(G[paths[source][dest][i]][paths[source][dest][i+1]]["link"])
                     if path not in dict_routes[source, dest]:
                         dict_routes[source, dest].append(path)
 
-        average_n_routes = sum([len(value) for key,value in dict_routes.items()])/len(dict_routes.keys())
+        average_n_routes = sum([len(value) for key,value in dict_routes.items()])/max(len(dict_routes.keys()), 1)
         if average_n_routes == average_n_routes_old:
             counter += 1
         else:
diff --git a/uxsim/trafficpp/traffi.cpp b/uxsim/trafficpp/traffi.cpp
index 3ab6ae0..2ce702c 100644
--- a/uxsim/trafficpp/traffi.cpp
+++ b/uxsim/trafficpp/traffi.cpp
@@ -1435,11 +1435,8 @@ map<pair<int,int>, vector<vector<int>>>
 World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
     int nsize = node_id;
 
-    // Build node_pair → link_id lookup (last link wins for multi-link pairs, matching Python)
+    // node_pair → link_id lookup (the link with the smallest weight in the iteration for multi-link pairs, matching Python)
     vector<vector<int>> node_pair_link(nsize, vector<int>(nsize, -1));
-    for (auto ln : links){
-        node_pair_link[ln->start_node->id][ln->end_node->id] = ln->id;
-    }
 
     map<pair<int,int>, vector<vector<int>>> dict_routes;
     std::mt19937 local_rng(seed);
@@ -1455,14 +1452,19 @@ World::enumerate_k_random_routes_cpp(int k, unsigned int seed){
 
     while (true){
         // Build weighted adj matrix (free-flow on iter 0, random on subsequent)
+        for (auto ln : links){
+            node_pair_link[ln->start_node->id][ln->end_node->id] = -1;
+        }
         for (auto ln : links){
             int i = ln->start_node->id;
             int j = ln->end_node->id;
-            double base_weight = ln->length / ln->vmax;
-            if (iteration == 0){
-                adj[i][j] = base_weight;
-            } else {
-                adj[i][j] = base_weight * rdist(local_rng);
+            double weight = ln->length / ln->vmax;
+            if (iteration > 0){
+                weight *= rdist(local_rng);
+            }
+            if (node_pair_link[i][j] == -1 || weight < adj[i][j]){
+                adj[i][j] = weight;
+                node_pair_link[i][j] = ln->id;
             }
         }
 
-- 
2.43.0


From be17c9def0d326d1c3b2f2c39443ccda227459d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 63/83] fix: shortest travel times at a given time use the last
 computation before that time for any update interval, and report its time

---
 uxsim/Utilities/Utilities.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 27ea5e4..2e7347e 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -306,12 +306,11 @@ def get_shortest_path_instantaneous_travel_time_between_all_nodes_on_t(W, t, ret
         Returns a numpy array of distances between nodes whose index is node.id pair if `return_matrix` is True and `return_time` is False.
         Returns a tuple of the abode distances and the actual time of computing shortest path cost if `return_time` is True.
     """
-    if t >= W.TMAX:
-        t = W.TMAX-W.DELTAT
-    duo_t = t//W.DUO_UPDATE_TIME
-    duo_timestep = int(duo_t*W.DUO_UPDATE_TIME/W.DELTAT)
+    dist_record = W.ROUTECHOICE.dist_record
+    duo_timestep = max([timestep for timestep in dist_record if timestep*W.DELTAT <= t], default=0)
+    duo_t = duo_timestep*W.DELTAT
 
-    distances = W.ROUTECHOICE.dist_record[duo_timestep]
+    distances = dist_record[duo_timestep]
 
     if return_matrix == True:
         ret = distances
-- 
2.43.0


From da876824dd90f4d6a7d3988662c8065672896dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 64/83] fix: the time-space network can be constructed for any
 time step width and duration and keeps the faster of parallel links

---
 uxsim/Utilities/Utilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/uxsim/Utilities/Utilities.py b/uxsim/Utilities/Utilities.py
index 2e7347e..cecff6c 100644
--- a/uxsim/Utilities/Utilities.py
+++ b/uxsim/Utilities/Utilities.py
@@ -347,7 +347,7 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
         Not efficient for large networks.
     """
     if dt == None:
-        dt = int(W.DELTAT)
+        dt = max(int(W.DELTAT), 1)
     tmax = int(W.TMAX)
     coef_t_to_xy = 1/10000  #for visualization
 
@@ -359,12 +359,15 @@ def construct_time_space_network(W, dt=None, from_origin_only=True):
     for t in range(0, tmax, dt):
         for node in W.NODES:
             for link in node.outlinks.values():
-                travel_time = link.traveltime_actual[int(t/W.DELTAT)]
+                travel_time = link.actual_travel_time(t)
                 t_arrival = int((t + travel_time)/dt)*dt
                 if t_arrival < W.TMAX:
                     u = (node.name, t)
                     v = (link.end_node.name, t_arrival)
-                    if G.has_node(u) and G.has_node(v):
+                    if G.has_edge(u, v):
+                        #parallel link
+                        G[u][v]["weight"] = min(G[u][v]["weight"], travel_time)
+                    elif G.has_node(u) and G.has_node(v):
                         G.add_edge(u, v, weight=travel_time)
                     else:
                         print(u,v)
-- 
2.43.0


From f1d2bdc88ab92ae3844c1e8d234b5b016c6e98b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 65/83] fix: link counts and travel times of a C++ world can be
 read before it is finalized

---
 uxsim/uxsim_cpp_wrapper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 6360618..0f73e0c 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -281,6 +281,9 @@ class CppLink:
         self.ls = []
         self.names = []
 
+        self._free_flow_tt = self.length / self.u if self.u > 0 else np.inf
+        self._deltat = self.W.DELTAT
+
         # Edie state grid
         self.eular_dx = eular_dx
         if eular_dx is None:
@@ -851,6 +854,9 @@ class CppWorld:
         self.DELTAT = self.REACTION_TIME * self.DELTAN
         self.DELTAT_ROUTE = max(1, int(self.DUO_UPDATE_TIME / self.DELTAT))
 
+        self.T = 0
+        self.TIME = 0
+
         self.VEHICLES = OrderedDict()
         self.VEHICLES_LIVING = OrderedDict()
         self.VEHICLES_RUNNING = OrderedDict()
-- 
2.43.0


From 59debba5cb130e6613a986cfbf8e0cc58f4d3aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 66/83] fix: the ALNS draws all random numbers from its own
 seeded generator

---
 uxsim/DTAsolvers/ALNS.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 692b483..8ca74b3 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -144,6 +144,10 @@ def _rng_choice(rng: random.Random, seq: Sequence[Any]) -> Any:
     """
     return seq[rng.randrange(len(seq))]
 
+def _np_rng(state: ALNSState) -> np.random.Generator:
+    """state.rngから決まるnumpyの乱数生成器（シードによる再現性のため）."""
+    return np.random.default_rng(state.rng.getrandbits(64))
+
 def _infer_domains_from_x(x: Sequence[Any]) -> List[List[Any]]:
     """解ベクトルから定義域を自動推定.
     
@@ -391,7 +395,7 @@ def destroy_early_departure(state: ALNSState, base: Sequence[Any]) -> Tuple[List
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
     probs = (w / w.sum())
-    removed = list(np.random.choice(np.arange(n), size=k, replace=False, p=probs))
+    removed = [int(i) for i in _np_rng(state).choice(np.arange(n), size=k, replace=False, p=probs)]
     xx = _copy_vec(base)
     for i in removed:
         xx[i] = None
@@ -421,7 +425,7 @@ def destroy_late_departure(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
     probs = (w / w.sum())
-    removed = list(np.random.choice(np.arange(n), size=k, replace=False, p=probs))
+    removed = [int(i) for i in _np_rng(state).choice(np.arange(n), size=k, replace=False, p=probs)]
     xx = _copy_vec(base)
     for i in removed:
         xx[i] = None
@@ -459,10 +463,10 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
     for _ in range(k):
-        link_selected_name = np.random.choice(most_delayed_links)
+        link_selected_name = _rng_choice(state.rng, most_delayed_links)
         link_selected = W.get_link(link_selected_name)
 
-        veh_selected = np.random.choice(list(link_selected.vehicles_enter_log.values()))
+        veh_selected = _rng_choice(state.rng, list(link_selected.vehicles_enter_log.values()))
         removed.append(veh_selected.id)
 
     xx = _copy_vec(base)
@@ -980,7 +984,7 @@ def auto_step(state: ALNSState) -> StepLog:
     delta = cand - state.cur
     T = _temperature(state, it_next=state.it + 1)
 
-    accept = (((delta <= 0) or (random.random() < math.exp(-delta / max(T, 1e-12)))) or state.always_accept) and len(changed_idx) > 0
+    accept = (((delta <= 0) or (state.rng.random() < math.exp(-delta / max(T, 1e-12)))) or state.always_accept) and len(changed_idx) > 0
     if accept:
         state.x_cur, state.cur = x_cand, cand
 
-- 
2.43.0


From 738ef37ff426cb0766bc04f2f50d4ac383c35ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 67/83] fix: the ALNS does not forget better solutions
 evaluated while estimating the initial temperature

---
 uxsim/DTAsolvers/ALNS.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index 8ca74b3..d40b86d 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -782,7 +782,11 @@ def init_alns(
                 choices = [c for c in domains[j] if c != xx[j]]
                 if choices:
                     xx[j] = _rng_choice(rng, choices)
-            d = _eval(xx) - cur
+            val = _eval(xx)
+            if val < best:          # 試行で見つかった最良解も保持
+                best = val
+                x_best = _copy_vec(xx)
+            d = val - cur
             if d > 0:               # 悪化のみ収集
                 deltas.append(d)
         if not deltas:
-- 
2.43.0


From 28cfc780373e3518d2bae0172860d7f1bcda2d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 68/83] fix: the ALNS operator of congested links skips links
 without vehicles instead of raising an exception

---
 uxsim/DTAsolvers/ALNS.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/ALNS.py b/uxsim/DTAsolvers/ALNS.py
index d40b86d..cd4e185 100644
--- a/uxsim/DTAsolvers/ALNS.py
+++ b/uxsim/DTAsolvers/ALNS.py
@@ -459,6 +459,10 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
     delay_ranking_ratio = 0.05
     delay_ranking_min_n = 3
 
+    #車両が流入したリンクのみを対象とする
+    df_l = df_l[[len(W.get_link(name).vehicles_enter_log) > 0 for name in df_l["link"]]]
+    if len(df_l) == 0:
+        return destroy_random(state, base)
     most_delayed_links = list(df_l.sort_values(by='delay_ratio', ascending=False)[:max([int(len(df_l)*delay_ranking_ratio),delay_ranking_min_n])]["link"])
     
     k = state.rng.randint(state.k_min, min(state.k_cur, n))
@@ -467,7 +471,8 @@ def destroy_congested_link(state: ALNSState, base: Sequence[Any]) -> Tuple[List[
         link_selected = W.get_link(link_selected_name)
 
         veh_selected = _rng_choice(state.rng, list(link_selected.vehicles_enter_log.values()))
-        removed.append(veh_selected.id)
+        if veh_selected.id not in removed:
+            removed.append(veh_selected.id)
 
     xx = _copy_vec(base)
     for i in removed:
-- 
2.43.0


From d2d1fa1c57049a7050a03340a8575182faee2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 69/83] fix: the route cost gap of the DTA solvers is the
 difference to the minimum cost route

---
 uxsim/DTAsolvers/DTAsolvers.py | 6 ++++--
 uxsim/trafficpp/dta_solver.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 69924ff..df9d815 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -219,13 +219,14 @@ class SolverDUE:
 
                 cost_current = r.actual_travel_time(ts[0]) + sum([l.get_toll(ts[i]) for i,l in enumerate(r)])
 
+                cost_traveled = cost_current
                 potential_n_swap_updated = potential_n_swap
                 for alt_route in route_set[o,d]:
                     alt_route_tts = alt_route.actual_travel_time(ts[0], return_details=True)[1]
                     cost_alt = alt_route.actual_travel_time(ts[0]) + sum([l.get_toll(ts[0]+sum(alt_route_tts[:i])) for i,l in enumerate(alt_route)])
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_traveled - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
@@ -583,6 +584,7 @@ class SolverDSO_D2D:
                 private_cost = r.actual_travel_time(ts[0])
                 cost_current = private_cost+ext
 
+                cost_traveled = cost_current
                 potential_n_swap_updated = potential_n_swap
 
                 for alt_route in route_set[o,d]:
@@ -592,7 +594,7 @@ class SolverDSO_D2D:
 
                     if cost_alt < cost_current:
                         if flag_route_changed == False or (cost_alt < cost_current):
-                            t_gap = cost_current - cost_alt
+                            t_gap = max(t_gap, cost_traveled - cost_alt)
                             potential_n_swap_updated = potential_n_swap + W.DELTAN
                             if flag_swap:
                                 flag_route_changed = True
diff --git a/uxsim/trafficpp/dta_solver.cpp b/uxsim/trafficpp/dta_solver.cpp
index 0730edd..df15d92 100644
--- a/uxsim/trafficpp/dta_solver.cpp
+++ b/uxsim/trafficpp/dta_solver.cpp
@@ -211,6 +211,7 @@ RouteSwapResult dta_route_swap_due(
             }
         }
 
+        const double cost_traveled = cost_current;
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
@@ -220,7 +221,7 @@ RouteSwapResult dta_route_swap_due(
             double cost_alt = dta_compute_route_cost_due(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_traveled - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
@@ -338,6 +339,7 @@ RouteSwapResult dta_route_swap_dso(
         double departure_t = traveled.entry_times.empty() ? veh->departure_time : traveled.entry_times[0];
         double cost_current = dta_compute_route_cost_dso(w, traveled.link_ids, departure_t);
 
+        const double cost_traveled = cost_current;
         bool flag_route_changed = false;
         int route_changed_idx = -1;
         double t_gap = 0.0;
@@ -347,7 +349,7 @@ RouteSwapResult dta_route_swap_dso(
             double cost_alt = dta_compute_route_cost_dso(w, route_set[ri], departure_t);
             if (cost_alt < cost_current){
                 if (!flag_route_changed || cost_alt < cost_current){
-                    t_gap = cost_current - cost_alt;
+                    t_gap = std::max(t_gap, cost_traveled - cost_alt);
                     potential_n_swap_delta = w->delta_n;
                     if (flag_swap){
                         flag_route_changed = true;
-- 
2.43.0


From 50072e596a5f035aa9f63b74a15ba1ba047a9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 70/83] fix: DTA solvers can solve repeatedly without mixing in
 the previous solution

---
 uxsim/DTAsolvers/DTAsolvers.py             | 7 +++++++
 uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index df9d815..f65c355 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -108,6 +108,9 @@ class SolverDUE:
         `self.W_intermid_solution` is the latest solution in the iterative process. Can be used when a user terminates the solution algorithm.
         """
         s.start_time = time.time()
+        s.W_sol = None
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         if print_progress:
@@ -462,6 +465,9 @@ class SolverDSO_D2D:
         `self.W_intermid_solution` is the latest solution in the iterative process. Can be used when a user terminates the solution algorithm.
         """
         s.start_time = time.time()
+        s.W_sol = None
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         if print_progress:
@@ -806,6 +812,7 @@ class SolverDSO_GA:
         GA part is initially written by ChatGPT o1-preview, and reviewed and overwritten by human.
         """
         s.start_time = time.time()
+        s.dfs_link = []
         
         # def initialize_population(pop_size, length, genome_maxs, W_init):
         #     """Initialize a population with random genomes."""
diff --git a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
index d7a6379..8402dba 100644
--- a/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
+++ b/uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py
@@ -259,6 +259,9 @@ class CppSolverDUE(SolverDUE):
 
     def solve(s, max_iter, n_routes_per_od=10, swap_prob=0.05, route_sets=None, print_progress=True):
         s.start_time = time.time()
+        s.W_sol = None
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         _ensure_cpp_world(W_orig, "CppSolverDUE")
@@ -378,6 +381,9 @@ class CppSolverDSO_D2D(SolverDSO_D2D):
 
     def solve(s, max_iter, n_routes_per_od=10, swap_prob=0.05, swap_num=None, route_sets=None, print_progress=True):
         s.start_time = time.time()
+        s.W_sol = None
+        s.W_intermid_solution = None
+        s.dfs_link = []
 
         W_orig = s.func_World()
         _ensure_cpp_world(W_orig, "CppSolverDSO_D2D")
-- 
2.43.0


From 7f5c078128285422a558f59449cbea1703c8c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 71/83] fix: SolverDSO_GA returns the best individual of the
 last generation instead of the last simulated one

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index f65c355..737898b 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1050,7 +1050,7 @@ class SolverDSO_GA:
         print(f" total travel time: initial {s.ttts[0]:.1f} -> last {s.ttts[-1]:.1f}")
         print(f" computation time: {s.end_time - s.start_time:.1f} seconds")
 
-        s.W_sol = W
+        s.W_sol = s.W_intermid_solution
         return s.W_sol
     
     def plot_convergence(s):
-- 
2.43.0


From dd4f8c3383409a26645959c5b1b84a69ca3e0d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 72/83] fix: SolverDSO_ALNS penalizes unfinished trips as
 documented instead of rewarding them

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 737898b..0e736f0 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1313,7 +1313,7 @@ class SolverDSO_ALNS:
             W = s.func_World()
             specify_routes(W, xx)
             W.exec_simulation()
-            obj_value = W.analyzer.total_travel_time - (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
+            obj_value = W.analyzer.total_travel_time + (W.analyzer.trip_all-W.analyzer.trip_completed)*W.TMAX
             
             route_actual = {}
             cost_actual = {}
-- 
2.43.0


From f074d2a0eaf3e2034be740889923d652eee66342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 73/83] fix: SolverDSO_ALNS starts from a valid solution for
 any initial world

---
 uxsim/DTAsolvers/DTAsolvers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 0e736f0..17fc3e4 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1209,8 +1209,7 @@ class SolverDSO_ALNS:
             #    print(W.analyzer.basic_to_pandas())
         else:
             W = initial_solution_World
-            dict_od_to_routes = W.dict_od_to_routes
-            
+
         if k_max == None:
             k_max = max([1, int(len(W.VEHICLES)*0.01)])
 
@@ -1224,7 +1223,7 @@ class SolverDSO_ALNS:
             dict_od_to_vehid[o,d].append(key)
             departure_times.append(veh.departure_time)
 
-        departure_times = np.array(departure_times)/max(departure_times)
+        departure_times = np.array(departure_times)/max(departure_times+[1e-6])
 
         ##############################################################
         # enumerate some routes between each OD pair
@@ -1238,6 +1237,7 @@ class SolverDSO_ALNS:
         if initial_solution_World != None and hasattr(initial_solution_World, "dict_od_to_routes"):
             print("Initial solusion is used")
             routes = initial_solution_World.dict_od_to_routes
+            dict_od_to_routes = routes
             xx0 = [0 for i in range(len(W.VEHICLES))]
             n_route_found = 0
             for i,veh in enumerate(W.VEHICLES.values()):   
@@ -1252,7 +1252,9 @@ class SolverDSO_ALNS:
                         break
 
                     #経路が経路集合に見当たらない場合，最短経路を探す
-                    if route.actual_travel_time(veh.departure_time_in_second) < route_mintt: 
+                    tt = route.actual_travel_time(veh.departure_time_in_second)
+                    if tt < route_mintt:
+                        route_mintt = tt
                         route_id_mintt = j
                 
                 if route_id != -1:
@@ -1279,7 +1281,7 @@ class SolverDSO_ALNS:
                 actual_n_route = len(routes[(veh.orig.name, veh.dest.name)])
                 xx_domain.append([i for i in range(actual_n_route)])
 
-            xx0 = [random.randint(0, len(xx_domain[i])) for i in range(len(W.VEHICLES))]
+            xx0 = [random.randint(0, len(xx_domain[i])-1) for i in range(len(W.VEHICLES))]
 
 
         ##############################################################
-- 
2.43.0


From c031a3ddf83d7191fe72648552cedc9b1951812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 74/83] fix: SolverDSO_GA keeps an odd population size without
 enough elites

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index 17fc3e4..db307a6 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -1026,7 +1026,7 @@ class SolverDSO_GA:
             for i in sorted(range(len(fitnesses)), key=lambda i: fitnesses[i], reverse=True)[:elite_size]:
                 next_generation.append(population[i])
             # Children
-            for i in range(int(pop_size/2)):
+            for i in range(int((pop_size+1)/2)):
                 parent1 = random.choice(selected)
                 parent2 = random.choice(selected)
                 # Crossover
-- 
2.43.0


From 94b36af3333b6fdd09cd84feb01d5db1a8f6dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 75/83] fix: SolverDSO_GA keeps the initial solution in a
 population of less than four

---
 uxsim/DTAsolvers/DTAsolvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/DTAsolvers/DTAsolvers.py b/uxsim/DTAsolvers/DTAsolvers.py
index db307a6..99d7e57 100644
--- a/uxsim/DTAsolvers/DTAsolvers.py
+++ b/uxsim/DTAsolvers/DTAsolvers.py
@@ -969,7 +969,7 @@ class SolverDSO_GA:
         for k in range(1, int(pop_size/4)):
             population[k] = mutate(population[0], 0.05, genome_maxs)
         #1/4 of the pop is heavier mutation of the initial solution
-        for k in range(int(pop_size/4), int(pop_size/2)):
+        for k in range(max(1, int(pop_size/4)), int(pop_size/2)):
             population[k] = mutate(population[0], 0.1, genome_maxs)
 
         for gen in range(max_iter):
-- 
2.43.0


From 357754a4d1a5fa0cae26be4dc1b2922cc08bd446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 76/83] fix: OSM importers connect the imported links to the
 imported nodes, not to existing nodes with the same name

---
 uxsim/OSMImporter/OSMImporter.py   | 14 +++++---------
 uxsim/OSMImporter2/OSMImporter2.py | 19 ++++++++-----------
 2 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 2a76564..580074c 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -353,13 +353,9 @@ class OSMImporter:
         coef_degree_to_meter: float
             The coefficient to convert lon/lat degree to meter. Default is 111000.
         """
-        for i, node in enumerate(nodes):
-            nname = str(node[0])
-            if nname in [n.name for n in W.NODES]:
-                nname + f"_osm{i}"
-            W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
-        for i, link in enumerate(links):
+        added_nodes = {}
+        for node in nodes:
+            added_nodes[node[0]] = W.addNode(str(node[0]), x=node[1], y=node[2], auto_rename=True)
+        for link in links:
             lname = str(link[0])
-            if lname in [l.name for l in W.LINKS]:
-                lname + f"_osm{i}"
-            W.addLink(lname, str(link[1]), str(link[2]), length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
+            W.addLink(lname, added_nodes[link[1]], added_nodes[link[2]], length=link[5]*coef_degree_to_meter, free_flow_speed=link[4], jam_density_per_lane=default_jam_density, number_of_lanes=link[3], auto_rename=True)
\ No newline at end of file
diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 383469b..e3807b3 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -216,18 +216,16 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
     for key in lanes_by_road_type:
         lanes_dict[key] = lanes_by_road_type[key]
 
-    added_node_names = []
+    added_nodes = {}
     for i in nodes.index:
         x = nodes.at[i, "x"]
         y = nodes.at[i, "y"]
         node_id = str(nodes.at[i, "node_id"])
-        W.addNode(node_id, x, y, auto_rename=True)
-
-        added_node_names.append(node_id)
+        added_nodes[node_id] = W.addNode(node_id, x, y, auto_rename=True)
 
     for i in links.index:
-        start_node = str(links.at[i, "from_node"])
-        end_node = str(links.at[i, "to_node"])
+        start_node = added_nodes[str(links.at[i, "from_node"])]
+        end_node = added_nodes[str(links.at[i, "to_node"])]
         length = links.at[i, "length"]
 
         name = links.at[i, "name"]
@@ -317,11 +315,10 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
             W.addLink(name=name+"-reverse", start_node=end_node, end_node=start_node, length=length, free_flow_speed=maxspeed, number_of_lanes=lanes, auto_rename=True)
     
     if set_node_capacity:
-        for node in W.NODES:
-            if node.name in added_node_names:
-                max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
-                node.flow_capacity = max_lanes*0.8*2
-                node.number_of_lanes = max_lanes*2
+        for node in added_nodes.values():
+            max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
+            node.flow_capacity = max_lanes*0.8*2
+            node.number_of_lanes = max_lanes*2
 
 
 def osm_network_to_World(W, north=None, south=None, east=None, west=None, bbox=None, custom_filter='["highway"~"trunk|primary"]', 
-- 
2.43.0


From 0dbf2453a53cd658e18cc08d972cd70b9870bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 77/83] fix: node capacities set by OSMImporter2 take effect in
 the simulation

---
 uxsim/OSMImporter2/OSMImporter2.py | 1 +
 uxsim/uxsim_cpp_wrapper.py         | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index e3807b3..127fb44 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -318,6 +318,7 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
         for node in added_nodes.values():
             max_lanes = max([l.number_of_lanes for l in node.inlinks.values()] + [l.number_of_lanes for l in node.outlinks.values()])
             node.flow_capacity = max_lanes*0.8*2
+            node.flow_capacity_remain = node.flow_capacity*W.DELTAT
             node.number_of_lanes = max_lanes*2
 
 
diff --git a/uxsim/uxsim_cpp_wrapper.py b/uxsim/uxsim_cpp_wrapper.py
index 0f73e0c..5ddc203 100644
--- a/uxsim/uxsim_cpp_wrapper.py
+++ b/uxsim/uxsim_cpp_wrapper.py
@@ -93,6 +93,13 @@ class CppNode:
     def flow_capacity(self, value):
         self._cpp_node.flow_capacity = float(value) if value is not None else -1.0
 
+    @property
+    def flow_capacity_remain(self):
+        return self._cpp_node.flow_capacity_remain
+    @flow_capacity_remain.setter
+    def flow_capacity_remain(self, value):
+        self._cpp_node.flow_capacity_remain = float(value)
+
     @property
     def number_of_lanes(self):
         return self._cpp_node.number_of_lanes if self._cpp_node.number_of_lanes >= 0 else None
-- 
2.43.0


From 91d0bcd56674416266627a2b8976c298ba24ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 78/83] fix: OSMImporter2 imports areas where no street has a
 name, speed limit or lane number

---
 uxsim/OSMImporter2/OSMImporter2.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 127fb44..c686726 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -216,6 +216,11 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
     for key in lanes_by_road_type:
         lanes_dict[key] = lanes_by_road_type[key]
 
+    # attributes that no street of the area has are missing as columns
+    for col in ["name", "highway", "maxspeed", "lanes"]:
+        if col not in links.columns:
+            links[col] = None
+
     added_nodes = {}
     for i in nodes.index:
         x = nodes.at[i, "x"]
-- 
2.43.0


From 3cc8b61bf066142b6eb6a75961752ed1286cc682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 79/83] fix: OSMImporter2 without simplification imports
 two-way streets once, not twice

---
 uxsim/OSMImporter2/OSMImporter2.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index c686726..9ac7e17 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -67,6 +67,17 @@ def _obtain_simplify_osm_by_osmnx_neatnet(bbox, custom_filter, simplification, k
         simplified_links = neatnet.neatify(ox.graph_to_gdfs(G_projected)[1], **kwargs_dict_for_neatnet_neatify)
     else:
         simplified_links = ox.graph_to_gdfs(G_projected)[1]
+
+        # two-way streets are included in both directions in the graph, and each street must be extracted only once
+        streets = set()
+        keep = []
+        for geometry, osmid, oneway in zip(simplified_links["geometry"], simplified_links["osmid"], simplified_links["oneway"]):
+            osmid = str(sorted(osmid) if type(osmid) is list else osmid)
+            coords = tuple(geometry.coords)
+            keep.append(oneway or (osmid, coords[::-1]) not in streets)
+            if not oneway:
+                streets.add((osmid, coords))
+        simplified_links = simplified_links[keep]
     
     return simplified_links
 
-- 
2.43.0


From e3ee36724118fac759404ef89fce6d91ad22f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 80/83] fix: OSMImporter2 estimates unknown road types from the
 links connected to both ends

---
 uxsim/OSMImporter2/OSMImporter2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uxsim/OSMImporter2/OSMImporter2.py b/uxsim/OSMImporter2/OSMImporter2.py
index 9ac7e17..5449c98 100644
--- a/uxsim/OSMImporter2/OSMImporter2.py
+++ b/uxsim/OSMImporter2/OSMImporter2.py
@@ -255,15 +255,15 @@ def _attach_osm_nodes_links(W, nodes, links, set_node_capacity, override_osm_att
         
         highway_type = links.at[i, "highway"]
         try:
-            if highway_type == None:
+            if type(highway_type) is not list and pd.isna(highway_type):
                 #estimate the type from connected links
                 from_node = links.at[i, "from_node"]
                 links_upstream = links[links["to_node"] == from_node]
-                to_node = links.at[i, "from_node"]
+                to_node = links.at[i, "to_node"]
                 links_downstream = links[links["from_node"] == to_node]
                 
                 links_connected = list(links_upstream["highway"])+list(links_downstream["highway"])
-                links_connected_filtered = [l for l in links_connected if l != None]
+                links_connected_filtered = [l for l in links_connected if type(l) is str]
 
                 if len(links_connected_filtered):
                     assumed_type = Counter(links_connected_filtered).most_common(1)[0][0]
-- 
2.43.0


From 7d8bb51e7906119290c6e6a7047829107781e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 81/83] fix: OSMImporter does not remove nodes because of links
 leading back to their start

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 580074c..0aa43b5 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -223,7 +223,7 @@ class OSMImporter:
                 link_length = distance(start_pos, end_pos)
                 #print(link_length, link[0], start_node, end_node)
 
-                if link_length <= node_merge_threshold:
+                if start_node != end_node and link_length <= node_merge_threshold:
                     #縮約先に登録されていなければ登録
                     if end_node not in delete_node_map.values() and start_node not in delete_node_map.keys():
                         delete_node_map[end_node] = start_node
-- 
2.43.0


From 2924c9e6ffab7e0e9268a962245cb8070627f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 82/83] fix: OSMImporter applies the default lanes and speed of
 motorways

---
 uxsim/OSMImporter/OSMImporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 0aa43b5..8812c90 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -125,7 +125,7 @@ class OSMImporter:
                     lanes = int(ed["lanes"])
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             lanes = default_number_of_lanes_mortorway
                         elif "trunk" in road_type:
                             lanes = default_number_of_lanes_trunk
@@ -147,7 +147,7 @@ class OSMImporter:
                     maxspeed = float(ed["maxspeed"])/3.6
                 except:
                     try:
-                        if "mortorway" in road_type:
+                        if "motorway" in road_type:
                             maxspeed = default_maxspeed_mortorway/3.6
                         elif "trunk" in road_type:
                             maxspeed = default_maxspeed_trunk/3.6
-- 
2.43.0


From 08af122e334c484dc4a2d5b1305ededb63791163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 83/83] fix: OSMImporter uses the attributes of each of
 parallel streets

---
 uxsim/OSMImporter/OSMImporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uxsim/OSMImporter/OSMImporter.py b/uxsim/OSMImporter/OSMImporter.py
index 8812c90..055356f 100644
--- a/uxsim/OSMImporter/OSMImporter.py
+++ b/uxsim/OSMImporter/OSMImporter.py
@@ -106,7 +106,7 @@ class OSMImporter:
         links = []
         nodes = {}
         for e in G.edges:
-            ed = G.get_edge_data(e[0], e[1])[0]
+            ed = G.edges[e]
             
             if "highway" in ed:
                 road_type = ed["highway"]
-- 
2.43.0

