From 090e04c9f1001dfe5e0c34c8e5db01d34eae4316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 01/64] fix: return every ejected flit's credit to the NoC

The map of freed flits kept one entry per node, so credits of flits freed in
the same NoC cycle were dropped and the NoC eventually stopped.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp |  2 +-
 rad-sim/sim/noc/aximm_master_adapter.hpp |  4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  |  2 +-
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/axis_master_adapter.cpp  |  2 +-
 rad-sim/sim/noc/axis_master_adapter.hpp  |  4 ++--
 rad-sim/sim/noc/radsim_noc.cpp           | 12 +++++++-----
 rad-sim/sim/noc/radsim_noc.hpp           |  6 +++---
 8 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..7ab68e4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -4,7 +4,7 @@ aximm_master_adapter::aximm_master_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..d9f3cb4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -35,7 +35,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   // Request Interface variables
   Flit *_ejected_booksim_flit;
@@ -89,7 +89,7 @@ public:
                        BookSimConfig *noc_config, Network *noc,
                        BufferState *buffer_state, tRoutingFunction routing_func,
                        bool lookahead_routing, bool wait_for_tail_credit,
-                       map<int, int> *ejected_flits,
+                       multimap<int, int> *ejected_flits,
                        unsigned int interface_dataw, double node_period,
                        double adapter_period);
   ~aximm_master_adapter();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..c4674a1 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -6,7 +6,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..c1d951b 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -70,7 +70,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   /* Request interface signals for storing selected input request transaction
    * based on the following table:
@@ -170,7 +170,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits,
+                      multimap<int, int> *ejected_flits,
                       unsigned int interface_dataw, double node_period,
                       double adapter_period);
   ~aximm_slave_adapter() override;
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..5f9118d 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -6,7 +6,7 @@ axis_master_adapter::axis_master_adapter(
     std::vector<unsigned int> &interface_dataw, BookSimConfig *noc_config,
     Network *noc, BufferState *buffer_state, tRoutingFunction routing_func,
     bool lookahead_routing, bool wait_for_tail_credit,
-    map<int, int> *ejected_flits)
+    multimap<int, int> *ejected_flits)
     : sc_module(name) {
   _rad_id = rad_id;
   _node_id = node_id;
diff --git a/rad-sim/sim/noc/axis_master_adapter.hpp b/rad-sim/sim/noc/axis_master_adapter.hpp
index 38d81ba..ac36a0c 100644
--- a/rad-sim/sim/noc/axis_master_adapter.hpp
+++ b/rad-sim/sim/noc/axis_master_adapter.hpp
@@ -30,7 +30,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   Flit *_ejected_booksim_flit;
   unsigned int _ejection_afifo_depth;
@@ -59,7 +59,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits);
+                      multimap<int, int> *ejected_flits);
   ~axis_master_adapter();
 
   void write_sc_packet_to_axis_output(sc_packet &packet,
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 4bd974f..7f45cd9 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -38,7 +38,7 @@ radsim_noc::radsim_noc(const sc_module_name &name, unsigned int rad_id, std::str
   _wait_for_tail_credit = _config.GetInt("wait_for_tail_credit");
 
   // Create ejected flits map and buffer states for all routers in all subnets
-  _ejected_flits = new map<int, int>();
+  _ejected_flits = new multimap<int, int>();
   _buffer_state.resize(_num_noc_nodes);
   for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
     std::ostringstream tmp_name;
@@ -296,7 +296,7 @@ BufferState *radsim_noc::GetBufferState(int node) {
   return _buffer_state[node];
 }
 
-map<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
+multimap<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 
 void radsim_noc::Tick() {
   // Reset Code
@@ -305,14 +305,16 @@ void radsim_noc::Tick() {
   while (true) {
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
-      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
-      if (iter != _ejected_flits->end()) {
+      // Return one credit per node per cycle, oldest first. Credits of flits
+      // freed faster than that wait for the next cycles.
+      multimap<int, int>::iterator iter = _ejected_flits->lower_bound(node_id);
+      if (iter != _ejected_flits->end() && iter->first == node_id) {
         Credit *const c = Credit::New();
         c->vc.insert(iter->second);
         _booksim_noc->WriteCredit(c, node_id);
+        _ejected_flits->erase(iter);
       }
     }
-    _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
     _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index b6328b9..1ace5c6 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -30,8 +30,8 @@ private:
   bool _lookahead_routing;                  // Is lookahead routing used?
   bool _wait_for_tail_credit;               // Do we wait for tail credit?
   std::vector<BufferState *> _buffer_state; // Vector of buffer state pointers
-  std::map<int, int>
-      *_ejected_flits; // Ejected flit map <node, virtual channel>
+  std::multimap<int, int>
+      *_ejected_flits; // Ejected flits <node, virtual channel>
 
   unsigned int _num_axis_slave_endpoints, _num_axis_master_endpoints;
   unsigned int _num_aximm_slave_endpoints, _num_aximm_master_endpoints;
@@ -65,7 +65,7 @@ public:
   bool IsLookaheadRouting() const;
   bool IsWaitForTailCredit() const;
   BufferState *GetBufferState(int node);
-  map<int, int> *GetEjectedFlitsMap();
+  multimap<int, int> *GetEjectedFlitsMap();
 
   void Tick();
   SC_HAS_PROCESS(radsim_noc);
-- 
2.43.0


From 73c821aa5e99f31381197fb6534f5a7a9fbc5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 02/64] fix: keep flits that arrive while the NoC adapter's
 ejection FIFO is full

The NoC presents a delivered flit for one cycle. With more credits per
virtual channel than ejection FIFO slots, flits arriving while an earlier one
waited for a slot were dropped.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++++++--
 rad-sim/sim/noc/aximm_master_adapter.hpp |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 12 ++++++++++--
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  1 +
 rad-sim/sim/noc/axis_master_adapter.cpp  | 12 ++++++++++--
 rad-sim/sim/noc/axis_master_adapter.hpp  |  1 +
 6 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 7ab68e4..9506c85 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -113,9 +113,17 @@ void aximm_master_adapter::OutputEjection() {
   wait();
 
   while (true) {
+    // The NoC presents a delivered flit for one cycle only, keep those that
+    // arrive while an earlier flit waits for space in its fifo
+    Flit *const arrived_flit = _noc->ReadFlit(_node_id);
+    if (arrived_flit != nullptr) {
+      _arrived_booksim_flits.push(arrived_flit);
+    }
+
     // If previously ejected flit was pused to a fifo, try read a new one
-    if (_ejected_booksim_flit == nullptr) {
-      _ejected_booksim_flit = _noc->ReadFlit(_node_id);
+    if (_ejected_booksim_flit == nullptr && !_arrived_booksim_flits.empty()) {
+      _ejected_booksim_flit = _arrived_booksim_flits.front();
+      _arrived_booksim_flits.pop();
     }
 
     // If reading a flit from the NoC is successful, start processing it
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index d9f3cb4..e7d0190 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -39,6 +39,7 @@ private:
 
   // Request Interface variables
   Flit *_ejected_booksim_flit;
+  std::queue<Flit *> _arrived_booksim_flits;
   unsigned int _ejection_afifo_depth;
   std::vector<std::queue<sc_flit>> _ejection_afifos;
   sc_vector<sc_signal<int>> _ejection_afifo_push_counter;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index c4674a1..00d379e 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -488,9 +488,17 @@ void aximm_slave_adapter::OutputEjection() {
   wait();
 
   while (true) {
+    // The NoC presents a delivered flit for one cycle only, keep those that
+    // arrive while an earlier flit waits for space in its fifo
+    Flit *const arrived_flit = _noc->ReadFlit(_node_id);
+    if (arrived_flit != nullptr) {
+      _arrived_booksim_flits.push(arrived_flit);
+    }
+
     // If previously ejected flit was pused to a fifo, try read a new one
-    if (_ejected_booksim_flit == nullptr) {
-      _ejected_booksim_flit = _noc->ReadFlit(_node_id);
+    if (_ejected_booksim_flit == nullptr && !_arrived_booksim_flits.empty()) {
+      _ejected_booksim_flit = _arrived_booksim_flits.front();
+      _arrived_booksim_flits.pop();
     }
 
     // If reading a flit from the NoC is successful, start processing it
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index c1d951b..05b1830 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -130,6 +130,7 @@ private:
 
   // Booksim flit ejection variables
   Flit *_ejected_booksim_flit;
+  std::queue<Flit *> _arrived_booksim_flits;
 
   // Asynchronous ejection FIFOs, one for each response type (R, B)
   unsigned int _ejection_afifo_depth;
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 5f9118d..7e5c718 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -70,9 +70,17 @@ void axis_master_adapter::OutputEjection() {
   wait();
 
   while (true) {
+    // The NoC presents a delivered flit for one cycle only, keep those that
+    // arrive while an earlier flit waits for space in its fifo
+    Flit *const arrived_flit = _noc->ReadFlit(_node_id);
+    if (arrived_flit != nullptr) {
+      _arrived_booksim_flits.push(arrived_flit);
+    }
+
     // If previously ejected flit was pused to a fifo, try read a new one
-    if (_ejected_booksim_flit == nullptr) {
-      _ejected_booksim_flit = _noc->ReadFlit(_node_id);
+    if (_ejected_booksim_flit == nullptr && !_arrived_booksim_flits.empty()) {
+      _ejected_booksim_flit = _arrived_booksim_flits.front();
+      _arrived_booksim_flits.pop();
     }
 
     // If reading a flit from the NoC is successful, start processing it
diff --git a/rad-sim/sim/noc/axis_master_adapter.hpp b/rad-sim/sim/noc/axis_master_adapter.hpp
index ac36a0c..a73e81d 100644
--- a/rad-sim/sim/noc/axis_master_adapter.hpp
+++ b/rad-sim/sim/noc/axis_master_adapter.hpp
@@ -33,6 +33,7 @@ private:
   multimap<int, int> *_ejected_flits;
 
   Flit *_ejected_booksim_flit;
+  std::queue<Flit *> _arrived_booksim_flits;
   unsigned int _ejection_afifo_depth;
   std::vector<std::queue<sc_flit>> _ejection_afifos;
   sc_vector<sc_signal<int>> _ejection_afifo_push_counter;
-- 
2.43.0


From 1d3d7f06f687cd44316c1f622418af33c9c06c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 03/64] fix: count NoC time in cycles so that it neither
 overflows nor skips pipeline delays

---
 rad-sim/sim/noc/radsim_noc.cpp | 4 +++-
 rad-sim/sim/noc/radsim_noc.hpp | 1 +
 rad-sim/sim/radsim_utils.cpp   | 9 +++++----
 rad-sim/sim/radsim_utils.hpp   | 5 ++++-
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 7f45cd9..221f721 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -13,6 +13,7 @@ radsim_noc::radsim_noc(const sc_module_name &name, unsigned int rad_id, std::str
   _rad_id = rad_id; 
   _portal_slave_name = portal_slave_name;
   _noc_id = noc_id;
+  _noc_cycle = 0;
   _num_noc_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", _noc_id, _rad_id);
 
   // Parse config file, initialize routing data structures and create Booksim
@@ -303,6 +304,7 @@ void radsim_noc::Tick() {
   wait();
 
   while (true) {
+    SetNoCCycle(_noc_cycle++);
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
       // Return one credit per node per cycle, oldest first. Credits of flits
@@ -317,7 +319,7 @@ void radsim_noc::Tick() {
     }
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
-    _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
+    _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(sc_time_stamp().value()) / 1000);
     wait();
   }
 }
\ No newline at end of file
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index 1ace5c6..cd3c794 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -29,6 +29,7 @@ private:
   tRoutingFunction _routing_func;           // Booksim NoC routing function
   bool _lookahead_routing;                  // Is lookahead routing used?
   bool _wait_for_tail_credit;               // Do we wait for tail credit?
+  int _noc_cycle;                           // Number of elapsed NoC cycles
   std::vector<BufferState *> _buffer_state; // Vector of buffer state pointers
   std::multimap<int, int>
       *_ejected_flits; // Ejected flits <node, virtual channel>
diff --git a/rad-sim/sim/radsim_utils.cpp b/rad-sim/sim/radsim_utils.cpp
index 497ed21..2e492fe 100644
--- a/rad-sim/sim/radsim_utils.cpp
+++ b/rad-sim/sim/radsim_utils.cpp
@@ -13,10 +13,11 @@ int GetSimulationCycle() {
   return cycle;
 }
 
-int GetSimTime() { 
-  sc_time t = sc_time_stamp();
-  return t.value();
-}
+static int current_noc_cycle = 0;
+
+void SetNoCCycle(int cycle) { current_noc_cycle = cycle; }
+
+int GetSimTime() { return current_noc_cycle; }
 
 int CalculateXYGridHops(unsigned int src, unsigned int dest, unsigned int grid_dimension) {
   int grid_size = grid_dimension * grid_dimension;
diff --git a/rad-sim/sim/radsim_utils.hpp b/rad-sim/sim/radsim_utils.hpp
index 32e11bc..cdd87fe 100644
--- a/rad-sim/sim/radsim_utils.hpp
+++ b/rad-sim/sim/radsim_utils.hpp
@@ -20,7 +20,10 @@ int GetSimulationCycle(double period);
 
 int GetSimulationCycle();
 
-// Returns the current simulation cycle number given the NoC clock period
+// Sets the cycle number of the NoC that is about to be evaluated
+void SetNoCCycle(int cycle);
+
+// Returns the cycle number of the NoC being evaluated (Booksim's time unit)
 // int GetSimTime();
 
 // Calculates the number of hops between source and destination nodes in a 2D
-- 
2.43.0


From e5fac8fe7bf34364f66840d3e7b713c94da89053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 04/64] fix: hold AXI-MM transfers until the receiver is ready,
 and take memory requests only when ready

---
 .../modules/custom_feature_interaction.cpp    |  2 +-
 .../dlrm/modules/feature_interaction.cpp      |  2 +-
 .../modules/custom_feature_interaction.cpp    |  2 +-
 .../modules/feature_interaction.cpp           |  2 +-
 rad-sim/sim/dram/mem_controller.cpp           | 25 +++++--------------
 rad-sim/sim/noc/aximm_master_adapter.cpp      |  8 ++++++
 rad-sim/sim/noc/aximm_slave_adapter.cpp       |  7 ++++++
 7 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
index 79522bc..73dad93 100644
--- a/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/custom_feature_interaction.cpp
@@ -174,7 +174,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { 
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
index b0f423e..e88dbef 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/custom_feature_interaction.cpp
@@ -175,7 +175,7 @@ void custom_feature_interaction::Tick() {
   while (true ) { //&& (radsim_design->rad_id == 0)) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_input_elements);
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
index 1479095..a7a2abf 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/feature_interaction.cpp
@@ -186,7 +186,7 @@ void feature_interaction::Tick() {
   while (true) {
     // Accept R responses from the NoC
     for (unsigned int ch_id = 0; ch_id < _num_mem_channels; ch_id++) {
-      if (_input_fifos[ch_id].size() < _fifos_depth &&
+      if (aximm_interface[ch_id].rready.read() &&
           aximm_interface[ch_id].rvalid.read()) {
         sc_bv<AXI4_MAX_DATAW> rdata_bv = aximm_interface[ch_id].rdata.read();
         data_vector<int16_t> rdata(_num_elements_wide_in);
diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..3b1222b 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -374,24 +374,9 @@ void mem_controller::Tick() {
 
   while (true) {
     for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
-      bool rd_iqueue_ok = _read_address_queue[ch_id].size() < _input_queue_size;
-      bool rd_oqueue_ok =
-          (_outstanding_read_requests[ch_id].size() +
-           _output_read_responses[ch_id].size()) < _output_queue_size;
-      bool wr_oqueue_ok =
-          (_outstanding_write_requests[ch_id].size() +
-           _output_write_responses[ch_id].size()) < _output_queue_size;
-
-      bool awready_flag =
-          _write_address_queue_occupancy[ch_id] < _input_queue_size;
-      bool wready_flag =
-          _write_address_queue_occupancy[ch_id] > 0 &&
-          _write_data_queue_occupancy[ch_id] < _input_queue_size &&
-          wr_oqueue_ok;
-      bool arready_flag = rd_iqueue_ok && rd_oqueue_ok;
-
       // Accepting write address requests
-      if (mem_channels[ch_id].awvalid.read() && awready_flag) {
+      if (mem_channels[ch_id].awvalid.read() &&
+          mem_channels[ch_id].awready.read()) {
         unsigned int transaction_size_in_bytes =
             (1 << mem_channels[ch_id].awsize.read().to_uint());
         unsigned int transaction_size = (unsigned int)ceil(
@@ -411,7 +396,8 @@ void mem_controller::Tick() {
       _write_address_queue_occupancy[ch_id].write(
           _write_address_queue[ch_id].size());
       // Accepting write data requests
-      if (mem_channels[ch_id].wvalid.read() && wready_flag) {
+      if (mem_channels[ch_id].wvalid.read() &&
+          mem_channels[ch_id].wready.read()) {
         uint64_t resp_addr = mem_channels[ch_id].wuser.read().to_uint64();
         sc_bv<AXI4_MAX_DATAW> write_data = mem_channels[ch_id].wdata.read();
         _write_data_queue[ch_id].push(std::make_pair(resp_addr, write_data));
@@ -419,7 +405,8 @@ void mem_controller::Tick() {
       }
       _write_data_queue_occupancy[ch_id].write(_write_data_queue[ch_id].size());
       // Accepting read address requests
-      if (mem_channels[ch_id].arvalid.read() && arready_flag) {
+      if (mem_channels[ch_id].arvalid.read() &&
+          mem_channels[ch_id].arready.read()) {
         uint64_t resp_addr = mem_channels[ch_id].aruser.read().to_uint64();
         unsigned int transaction_size_in_bytes =
             (1 << mem_channels[ch_id].arsize.read().to_uint());
diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 9506c85..9b57e7b 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -256,6 +256,14 @@ void aximm_master_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // Hold a presented transaction until it is accepted
+    if ((aximm_interface.arvalid.read() && !aximm_interface.arready.read()) ||
+        (aximm_interface.awvalid.read() && !aximm_interface.awready.read()) ||
+        (aximm_interface.wvalid.read() && !aximm_interface.wready.read())) {
+      wait();
+      continue;
+    }
+
     if (!_output_afifo.empty() > 0 && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 00d379e..b0d1b9f 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -630,6 +630,13 @@ void aximm_slave_adapter::OutputInterface() {
   wait();
 
   while (true) {
+    // Hold a presented transaction until it is accepted
+    if ((aximm_interface.rvalid.read() && !aximm_interface.rready.read()) ||
+        (aximm_interface.bvalid.read() && !aximm_interface.bready.read())) {
+      wait();
+      continue;
+    }
+
     if (!_output_afifo.empty() && !_output_packet_ready) {
       _output_packet = _output_afifo.front();
       _output_afifo.pop();
-- 
2.43.0


From 94fa167a60b6ec1824531b35a1e5db7431502968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 05/64] fix: take AXI-MM burst, size and length from the
 control field of the packet

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 9b57e7b..1f4dbf6 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -294,13 +294,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -331,13 +331,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From 560ab3368df70895046f57433958e5dc1947b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 06/64] fix: packetize every captured AXI-MM transaction
 exactly once

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 23 ++++++++++++++++------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  2 ++
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 25 +++++++++++++++++-------
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  2 ++
 4 files changed, 39 insertions(+), 13 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 1f4dbf6..aaa3d01 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -66,7 +66,8 @@ aximm_master_adapter::aximm_master_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.rvalid
             << aximm_interface.bvalid << _injection_priority_setting
-            << _packetization_cycle << rst;
+            << _packetization_cycle << _i_valid << _i_unique_sim_id
+            << _packetized_sim_id << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -377,6 +378,12 @@ void aximm_master_adapter::OutputInterface() {
   }
 }
 
+// A transaction is pending from when it is captured until it is packetized
+bool aximm_master_adapter::IsPending() {
+  return _i_valid.read() &&
+         (_i_unique_sim_id.read() != _packetized_sim_id.read());
+}
+
 // Implements the input ready interface based on prioritized round-robin
 // arbitration. This decides which interface (R, B) is captured and passed to
 // the packetization stage.
@@ -402,8 +409,10 @@ void aximm_master_adapter::InputReady() {
     // simultaneously.
     assert(!(_rready && _bready));
   }
-  aximm_interface.rready.write((_packetization_cycle.read() == 0) && _rready);
-  aximm_interface.bready.write((_packetization_cycle.read() == 0) && _bready);
+  // A captured transaction has to be packetized before the next is accepted
+  bool can_capture = (_packetization_cycle.read() == 0) && !IsPending();
+  aximm_interface.rready.write(can_capture && _rready);
+  aximm_interface.bready.write(can_capture && _bready);
 }
 
 int aximm_master_adapter::GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr) {
@@ -477,7 +486,7 @@ void aximm_master_adapter::InputInterface() {
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
       _i_unique_sim_id.write(unique_sim_id);
-    } else {
+    } else if (!IsPending()) {
       _i_valid.write(false);
     }
     wait();
@@ -491,13 +500,14 @@ void aximm_master_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
+  _packetized_sim_id.write(-1);
   _injection_afifo_full.write(false);
   wait();
 
   while (true) {
     // If a valid transaction is selected and asynchronous injection FIFO has
     // empty slots
-    if (_i_valid.read()) {
+    if (IsPending()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -546,6 +556,7 @@ void aximm_master_adapter::InputPacketization() {
         }
         _num_packetization_flits.write(num_flits);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
+        _packetized_sim_id.write(_i_unique_sim_id.read());
       }
     }
 
@@ -556,7 +567,7 @@ void aximm_master_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         NoCTransactionTelemetry::RecordTransactionTailPacketization(
             _i_unique_sim_id.read());
         _packetization_cycle.write(0);
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index e7d0190..8e06d8b 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -62,6 +62,7 @@ private:
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
+  sc_signal<int> _packetized_sim_id;
 
   bool _rready, _bready;
 
@@ -100,6 +101,7 @@ public:
   void OutputEjection();
 
   void InputReady();
+  bool IsPending();
   void InputInterface();
   void InputPacketization();
   int GetInputDestinationNode(sc_bv<AXI4_ADDRW> &addr);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index b0d1b9f..be0cf35 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -51,7 +51,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
-            << _injection_priority_setting << _packetization_cycle << rst;
+            << _injection_priority_setting << _packetization_cycle << _i_valid << _i_unique_sim_id
+            << _packetized_sim_id << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
@@ -84,6 +85,12 @@ aximm_slave_adapter::~aximm_slave_adapter() {
   delete _noc_config;
 }
 
+// A transaction is pending from when it is captured until it is packetized
+bool aximm_slave_adapter::IsPending() {
+  return _i_valid.read() &&
+         (_i_unique_sim_id.read() != _packetized_sim_id.read());
+}
+
 // Implements the input ready interface based on prioritized round-robin
 // arbitration. This decides which interface (AR, AW, W) is captured and pased
 // to the packetization stage. The W interface is not selected unless an AW
@@ -132,9 +139,11 @@ void aximm_slave_adapter::InputReady() {
             !(_arready && _awready && _wready)) ||
            (!_arready && !_awready && !_wready));
   }
-  aximm_interface.awready.write((_packetization_cycle.read() == 0) && _awready);
-  aximm_interface.wready.write((_packetization_cycle.read() == 0) && _wready);
-  aximm_interface.arready.write((_packetization_cycle.read() == 0) && _arready);
+  // A captured transaction has to be packetized before the next is accepted
+  bool can_capture = (_packetization_cycle.read() == 0) && !IsPending();
+  aximm_interface.awready.write(can_capture && _awready);
+  aximm_interface.wready.write(can_capture && _wready);
+  aximm_interface.arready.write(can_capture && _arready);
 }
 
 // Implements the input interface capturing into the reduced set of signals to
@@ -248,7 +257,7 @@ void aximm_slave_adapter::InputInterface() {
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
                 << std::endl;*/
-    } else {
+    } else if (!IsPending()) {
       _i_valid.write(false);
     }
     wait();
@@ -272,6 +281,7 @@ void aximm_slave_adapter::InputPacketization() {
   // Reset Code
   _packetization_cycle.write(0);
   _num_packetization_flits.write(0);
+  _packetized_sim_id.write(-1);
   _injection_afifo_full.write(false);
   _last_awdest.write(0);
   wait();
@@ -279,7 +289,7 @@ void aximm_slave_adapter::InputPacketization() {
   while (true) {
     // If a valid transaction is selected and asynchronous injection FIFO has
     // empty slots
-    if (_i_valid.read()) {
+    if (IsPending()) {
       // Packetization is simulated by generating all flits and pushing them
       // into the asynchronous injection FIFO in the first FSM packetization
       // state, then remains idle during the remaining states (analogous to an
@@ -339,6 +349,7 @@ void aximm_slave_adapter::InputPacketization() {
         }
         _num_packetization_flits.write(num_flits);
         _packetization_cycle.write(_packetization_cycle.read() + 1);
+        _packetized_sim_id.write(_i_unique_sim_id.read());
       }
     }
 
@@ -349,7 +360,7 @@ void aximm_slave_adapter::InputPacketization() {
       } else {
         limit = _freq_ratio - 1;
       }
-      if (_packetization_cycle.read() == limit) {
+      if (_packetization_cycle.read() >= limit) {
         NoCTransactionTelemetry::RecordTransactionTailPacketization(
             _i_unique_sim_id.read());
         _packetization_cycle.write(0);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 05b1830..77d8021 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -97,6 +97,7 @@ private:
   sc_signal<sc_uint<3>> _i_type;
   sc_signal<sc_uint<NOC_LINKS_DEST_WIDTH>> _i_noc_dest;
   sc_signal<int> _i_unique_sim_id;
+  sc_signal<int> _packetized_sim_id;
 
   // Variables for computing different request interface ready signals. Master
   // adapter will accept a W transaction only if it previously received an AW
@@ -178,6 +179,7 @@ public:
 
   // SystemC Threads implementing stages of input pipeline of the adapter
   void InputReady();
+  bool IsPending();
   void InputInterface();
   void InputPacketization();
   void InputInjection();
-- 
2.43.0


From 047afa56f64c83efaa44f4b21961845d535797e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 07/64] fix: send all bits of AXI-MM addresses, and reserve
 injection space for whole transactions

---
 rad-sim/sim/noc/aximm_master_adapter.cpp |  8 ++++----
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 13 +++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index aaa3d01..437a2cb 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -47,14 +47,14 @@ aximm_master_adapter::aximm_master_adapter(
   // Initialize response interface (B, R) member variables
   _injection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
-  _axi_transaction_width = AXI4_USERW;
-  if ((AXI4_ADDRW + AXI4_CTRLW) > (_interface_dataw + AXI4_RESPW + 1)) {
+  _axi_transaction_width = AXI4_USERW + AXI4_RESPW + 1;
+  if ((AXI4_ADDRW + AXI4_CTRLW) > _interface_dataw) {
     _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW);
   } else {
-    _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
+    _axi_transaction_width += _interface_dataw;
   }
   _max_flits_per_transaction =
-      (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
+      (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
   _freq_ratio = (int)floor(_node_period / _adapter_period);
   _rready = false;
   _bready = false;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index be0cf35..0f6ea89 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -31,14 +31,14 @@ aximm_slave_adapter::aximm_slave_adapter(
   _injection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
 
-  _axi_transaction_width = AXI4_USERW;
-  if ((AXI4_ADDRW + AXI4_CTRLW) > (_interface_dataw + AXI4_RESPW + 1)) {
+  _axi_transaction_width = AXI4_USERW + AXI4_RESPW + 1;
+  if ((AXI4_ADDRW + AXI4_CTRLW) > _interface_dataw) {
     _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW);
   } else {
-    _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
+    _axi_transaction_width += _interface_dataw;
   }
   _max_flits_per_transaction =
-      (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
+      (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
   _freq_ratio = (int)floor(_node_period / _adapter_period);
   _arready = false;
   _awready = false;
@@ -303,8 +303,9 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
-                                  NOC_LINKS_PAYLOAD_WIDTH));
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) *
+                                  1.0 / NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
           AXI4_ADDR(packet_bv) = _i_payload.read();
-- 
2.43.0


From 2f9bd7de9770d0fddc51604f588b2ad1cc55c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 08/64] fix: keep AXI-MM packets of different virtual channels
 apart during ejection

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 23 ++++++++++++-----------
 rad-sim/sim/noc/aximm_master_adapter.hpp |  1 +
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 22 ++++++++++++----------
 rad-sim/sim/noc/aximm_slave_adapter.hpp  |  1 +
 4 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 437a2cb..cb02ee2 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -28,10 +28,12 @@ aximm_master_adapter::aximm_master_adapter(
   // Initialize request interface (AR, AW, W) member variables
   _ejection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
-  _ejection_afifos.resize(AXI_NUM_REQ_TYPES);
-  _ejection_afifo_push_counter.init(AXI_NUM_REQ_TYPES);
-  _ejection_afifo_pop_counter.init(AXI_NUM_REQ_TYPES);
-  for (int i = 0; i < AXI_NUM_REQ_TYPES; i++) {
+  _num_vcs =
+      radsim_config.GetIntVectorKnobPerRad("noc_vcs", _network_id, _rad_id);
+  _ejection_afifos.resize(_num_vcs);
+  _ejection_afifo_push_counter.init(_num_vcs);
+  _ejection_afifo_pop_counter.init(_num_vcs);
+  for (unsigned int i = 0; i < _num_vcs; i++) {
     _ejection_afifo_priority.push(i);
   }
   _ejected_booksim_flit = nullptr;
@@ -133,9 +135,8 @@ void aximm_master_adapter::OutputEjection() {
       int vc_id = _ejected_booksim_flit->vc;
       // std::cout << this->name() << ": Ejected Flit from VC " << vc_id << "!"
       //           << std::endl;
-      int type = InverseVCMapping(vc_id);
-      int type_id = (type == AXI_TYPE_AR) ? 0 : (type == AXI_TYPE_AW) ? 1 : 2;
-      if (_ejection_afifos[type_id].size() < _ejection_afifo_depth) {
+      InverseVCMapping(vc_id); // Verify that this is a request VC
+      if (_ejection_afifos[vc_id].size() < _ejection_afifo_depth) {
         // Create a SystemC flit and push it to its corresponding ejection FIFO
         sc_flit ejected_flit(
             _ejected_booksim_flit->head, _ejected_booksim_flit->tail,
@@ -144,13 +145,13 @@ void aximm_master_adapter::OutputEjection() {
             _ejected_booksim_flit->pid, _ejected_booksim_flit->id);
         ejected_flit._payload = static_cast<sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *>(
             _ejected_booksim_flit->data);
-        _ejection_afifos[type_id].push(ejected_flit);
+        _ejection_afifos[vc_id].push(ejected_flit);
 
         // If tail flit received, increment FIFO counter (i.e. FIFO has 1 more
         // complete packet)
         if (_ejected_booksim_flit->tail) {
-          int updated_count = _ejection_afifo_push_counter[type_id].read() + 1;
-          _ejection_afifo_push_counter[type_id].write(updated_count);
+          int updated_count = _ejection_afifo_push_counter[vc_id].read() + 1;
+          _ejection_afifo_push_counter[vc_id].write(updated_count);
           NoCTransactionTelemetry::RecordTransactionTailEjection(
               _ejected_booksim_flit->id);
           NoCTransactionTelemetry::UpdateHops(_ejected_booksim_flit->id,
@@ -189,7 +190,7 @@ void aximm_master_adapter::OutputDepacketization() {
       // ready
       unsigned int num_checked_fifos = 0;
       while (!fifo_has_complete_packet &&
-             num_checked_fifos < AXI_NUM_REQ_TYPES) {
+             num_checked_fifos < _num_vcs) {
         _ejection_afifo_priority.push(_ejection_afifo_priority.front());
         _ejection_afifo_priority.pop();
         num_checked_fifos++;
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 8e06d8b..82fbe3c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -40,6 +40,7 @@ private:
   // Request Interface variables
   Flit *_ejected_booksim_flit;
   std::queue<Flit *> _arrived_booksim_flits;
+  unsigned int _num_vcs;
   unsigned int _ejection_afifo_depth;
   std::vector<std::queue<sc_flit>> _ejection_afifos;
   sc_vector<sc_signal<int>> _ejection_afifo_push_counter;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 0f6ea89..9ef1f05 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -64,10 +64,12 @@ aximm_slave_adapter::aximm_slave_adapter(
   _ejected_booksim_flit = nullptr;
   _ejection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
-  _ejection_afifos.resize(AXI_NUM_RSP_TYPES);
-  _ejection_afifo_push_counter.init(AXI_NUM_RSP_TYPES);
-  _ejection_afifo_pop_counter.init(AXI_NUM_RSP_TYPES);
-  for (int i = 0; i < AXI_NUM_RSP_TYPES; i++) {
+  _num_vcs =
+      radsim_config.GetIntVectorKnobPerRad("noc_vcs", _network_id, _rad_id);
+  _ejection_afifos.resize(_num_vcs);
+  _ejection_afifo_push_counter.init(_num_vcs);
+  _ejection_afifo_pop_counter.init(_num_vcs);
+  for (unsigned int i = 0; i < _num_vcs; i++) {
     _ejection_afifo_priority.push(i);
   }
 
@@ -517,8 +519,8 @@ void aximm_slave_adapter::OutputEjection() {
     if (_ejected_booksim_flit) {
       // Check if corresponding ejection FIFO can accept a new flit
       int vc_id = _ejected_booksim_flit->vc;
-      int type_id = (InverseVCMapping(vc_id) == AXI_TYPE_R) ? 0 : 1;
-      if (_ejection_afifos[type_id].size() < _ejection_afifo_depth) {
+      InverseVCMapping(vc_id); // Verify that this is a response VC
+      if (_ejection_afifos[vc_id].size() < _ejection_afifo_depth) {
         // Create a SystemC flit and push it to its corresponding ejection FIFO
         sc_flit ejected_flit(
             _ejected_booksim_flit->head, _ejected_booksim_flit->tail,
@@ -527,13 +529,13 @@ void aximm_slave_adapter::OutputEjection() {
             _ejected_booksim_flit->pid, _ejected_booksim_flit->id);
         ejected_flit._payload = static_cast<sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *>(
             _ejected_booksim_flit->data);
-        _ejection_afifos[type_id].push(ejected_flit);
+        _ejection_afifos[vc_id].push(ejected_flit);
 
         // If tail flit received, increment FIFO counter (i.e. FIFO has 1 more
         // complete packet), and record ejection time
         if (_ejected_booksim_flit->tail) {
-          int updated_count = _ejection_afifo_push_counter[type_id].read() + 1;
-          _ejection_afifo_push_counter[type_id].write(updated_count);
+          int updated_count = _ejection_afifo_push_counter[vc_id].read() + 1;
+          _ejection_afifo_push_counter[vc_id].write(updated_count);
           NoCTransactionTelemetry::RecordTransactionTailEjection(
               _ejected_booksim_flit->id);
           NoCTransactionTelemetry::UpdateHops(_ejected_booksim_flit->id,
@@ -574,7 +576,7 @@ void aximm_slave_adapter::OutputDepacketization() {
       // ready
       unsigned int num_checked_fifos = 0;
       while (!fifo_has_complete_packet &&
-             num_checked_fifos < AXI_NUM_RSP_TYPES) {
+             num_checked_fifos < _num_vcs) {
         _ejection_afifo_priority.push(_ejection_afifo_priority.front());
         _ejection_afifo_priority.pop();
         num_checked_fifos++;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 77d8021..fe84a4e 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -134,6 +134,7 @@ private:
   std::queue<Flit *> _arrived_booksim_flits;
 
   // Asynchronous ejection FIFOs, one for each response type (R, B)
+  unsigned int _num_vcs;
   unsigned int _ejection_afifo_depth;
   std::vector<std::queue<sc_flit>> _ejection_afifos;
   sc_vector<sc_signal<int>> _ejection_afifo_push_counter;
-- 
2.43.0


From 4cc098e52c9113afe1ba27daa2376e722adf0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 09/64] fix: a refresh waits tRC after the activate of an
 auto-precharged bank

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..e7274a2 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -188,6 +188,9 @@ Timing::Timing(const Config& config)
             {CommandType::READ_PRECHARGE, activate_to_read},
             {CommandType::WRITE_PRECHARGE, activate_to_write},
             {CommandType::PRECHARGE, activate_to_precharge},
+            {CommandType::REFRESH, activate_to_refresh},
+            {CommandType::REFRESH_BANK, activate_to_refresh},
+            {CommandType::SREF_ENTER, activate_to_refresh},
         };
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
-- 
2.43.0


From be25d1cbec1cabefce09a962bdf2f04b192bf172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 10/64] fix: a bank refresh blocks its own bank for tRFCb and
 lets other banks be refreshed and used

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index e7274a2..5075ddb 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -51,8 +51,6 @@ Timing::Timing(const Config& config)
         config.tRC;  // need to precharge before ref, so it's tRC
 
     // TODO: deal with different refresh rate
-    int refresh_to_refresh =
-        config.tREFI;  // refresh intervals (per rank level)
     int refresh_to_activate = config.tRFC;  // tRFC is defined as ref to act
     int refresh_to_activate_bank = config.tRFCb;
 
@@ -196,12 +194,12 @@ Timing::Timing(const Config& config)
     other_banks_same_bankgroup[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_l},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_l}};
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::ACTIVATE)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, activate_to_activate_s},
-            {CommandType::REFRESH_BANK, activate_to_refresh}};
+            {CommandType::REFRESH_BANK, activate_to_activate_s}};
 
     // command PRECHARGE
     same_bank[static_cast<int>(CommandType::PRECHARGE)] =
@@ -225,7 +223,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
@@ -234,14 +232,14 @@ Timing::Timing(const Config& config)
 
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, activate_to_activate_l},
+            {CommandType::REFRESH_BANK, activate_to_activate_l},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
-            {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::ACTIVATE, activate_to_activate_s},
+            {CommandType::REFRESH_BANK, activate_to_activate_s},
         };
 
     // REFRESH, SREF_ENTER and SREF_EXIT are isued to the entire
-- 
2.43.0


From 022fc16075d4d688fbb7b60ae59eaf72eb39d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 11/64] fix: simultaneous refresh reaches every rank, not only
 the first

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 021e31f2f48c22147597df9c02ee4e4f1cb6c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:20 +0000
Subject: [PATCH 12/64] fix: self refresh can be left while requests wait, and
 is not entered over a pending refresh

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc  | 1 +
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..b6cc22c 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -70,6 +70,7 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::READ_PRECHARGE:
                 case CommandType::WRITE:
                 case CommandType::WRITE_PRECHARGE:
+                case CommandType::SREF_EXIT:
                     required_type = CommandType::SREF_EXIT;
                     break;
                 default:
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..f6f3b42 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -125,7 +125,9 @@ void Controller::ClockTick() {
                     }
                 }
             } else {
+                // a refresh that is already due comes first
                 if (cmd_queue_.rank_q_empty[i] &&
+                    !channel_state_.IsRefreshWaiting() &&
                     channel_state_.rank_idle_cycles[i] >=
                         config_.sref_threshold) {
                     auto addr = Address();
-- 
2.43.0


From aa8654ce320de7d5d71dd0b386cd219c5b358d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 13/64] fix: reads keep being scheduled while buffered writes
 wait for them

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 12 +++++++++++-
 rad-sim/sim/dram/DRAMsim3/src/controller.h  |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index f6f3b42..acb868a 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -209,6 +209,15 @@ void Controller::ScheduleTransaction() {
     std::vector<Transaction> &queue =
         is_unified_queue_ ? unified_queue_
                           : write_draining_ > 0 ? write_buffer_ : read_queue_;
+    if (!ScheduleFrom(queue) && !is_unified_queue_ && &queue != &read_queue_) {
+        // the writes wait for a read: let the reads make progress
+        ScheduleFrom(read_queue_);
+    }
+}
+
+// Move one transaction of a queue to the command queue. Returns false when a
+// write has to wait for an earlier read of its address.
+bool Controller::ScheduleFrom(std::vector<Transaction> &queue) {
     for (auto it = queue.begin(); it != queue.end(); it++) {
         auto cmd = TransToCommand(*it);
         if (cmd_queue_.WillAcceptCommand(cmd.Rank(), cmd.Bankgroup(),
@@ -217,7 +226,7 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
-                    break;
+                    return false;
                 }
                 write_draining_ -= 1;
             }
@@ -226,6 +235,7 @@ void Controller::ScheduleTransaction() {
             break;
         }
     }
+    return true;
 }
 
 void Controller::IssueCommand(const Command &cmd) {
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.h b/rad-sim/sim/dram/DRAMsim3/src/controller.h
index 77bd6af..968928a 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.h
@@ -77,6 +77,7 @@ class Controller {
     // transaction queueing
     int write_draining_;
     void ScheduleTransaction();
+    bool ScheduleFrom(std::vector<Transaction> &queue);
     void IssueCommand(const Command &tmp_cmd);
     Command TransToCommand(const Transaction &trans);
     void UpdateCommandStats(const Command &cmd);
-- 
2.43.0


From c858dfb43195b343dc29d83b9bc183e7870d9853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 14/64] fix: a negative write-to-read distance no longer blocks
 other ranks forever

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 5075ddb..af2a27f 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -23,8 +23,9 @@ Timing::Timing(const Config& config)
 
     int write_to_read_l = config.write_delay + config.tWTR_L;
     int write_to_read_s = config.write_delay + config.tWTR_S;
-    int write_to_read_o = config.write_delay + config.burst_cycle +
-                          config.tRTRS - config.read_delay;
+    // never negative: it is added to an unsigned time
+    int write_to_read_o = std::max(0, config.write_delay + config.burst_cycle +
+                                          config.tRTRS - config.read_delay);
     int write_to_write_l = std::max(config.burst_cycle, config.tCCD_L);
     int write_to_write_s = std::max(config.burst_cycle, config.tCCD_S);
     int write_to_write_o = config.burst_cycle;
-- 
2.43.0


From 31b4e2bd1d3c7e16ada43c1569ef0e84dbd8282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 15/64] fix: a read or write that HBM does not issue as second
 command stays in its queue

---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.cc | 3 ---
 rad-sim/sim/dram/DRAMsim3/src/command_queue.h  | 3 ++-
 rad-sim/sim/dram/DRAMsim3/src/controller.cc    | 7 +++++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
index f121d28..db276e9 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.cc
@@ -44,9 +44,6 @@ Command CommandQueue::GetCommandToIssue() {
         }
         auto cmd = GetFirstReadyInQueue(queue);
         if (cmd.IsValid()) {
-            if (cmd.IsReadWrite()) {
-                EraseRWCommand(cmd);
-            }
             return cmd;
         }
     }
diff --git a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
index 5bc8d3f..49b5123 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/command_queue.h
@@ -19,6 +19,8 @@ class CommandQueue {
     CommandQueue(int channel_id, const Config& config,
                  const ChannelState& channel_state, SimpleStats& simple_stats);
     Command GetCommandToIssue();
+    // takes a read or write that is issued out of its queue
+    void EraseRWCommand(const Command& cmd);
     Command FinishRefresh();
     void ClockTick() { clk_ += 1; };
     bool WillAcceptCommand(int rank, int bankgroup, int bank) const;
@@ -37,7 +39,6 @@ class CommandQueue {
     CMDQueue& GetQueue(int rank, int bankgroup, int bank);
     CMDQueue& GetNextQueue();
     void GetRefQIndices(const Command& ref);
-    void EraseRWCommand(const Command& cmd);
     Command PrepRefCmd(const CMDIterator& it, const Command& ref) const;
 
     QueueStructure queue_structure_;
diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index acb868a..a554003 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -78,13 +78,20 @@ void Controller::ClockTick() {
     }
 
     if (cmd.IsValid()) {
+        if (cmd.IsReadWrite()) {
+            cmd_queue_.EraseRWCommand(cmd);
+        }
         IssueCommand(cmd);
         cmd_issued = true;
 
         if (config_.enable_hbm_dual_cmd) {
             auto second_cmd = cmd_queue_.GetCommandToIssue();
             if (second_cmd.IsValid()) {
+                // a command that is not issued now stays in its queue
                 if (second_cmd.IsReadWrite() != cmd.IsReadWrite()) {
+                    if (second_cmd.IsReadWrite()) {
+                        cmd_queue_.EraseRWCommand(second_cmd);
+                    }
                     IssueCommand(second_cmd);
                     simple_stats_.Increment("hbm_dual_cmds");
                 }
-- 
2.43.0


From 2b2a137f09df6d869d938feda7d40beaa768a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 16/64] fix: mem_controller does not look at the front of an
 empty queue of outstanding reads

---
 rad-sim/sim/dram/mem_controller.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 3b1222b..3508780 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -198,6 +198,8 @@ void mem_controller::MemReadCallback(uint64_t addr) {
 
     do {
       flag = false;
+      if (_outstanding_read_requests[ch_id].empty())
+        break;
       uint64_t front_addr =
           std::get<0>(_outstanding_read_requests[ch_id].front());
       if (_out_of_order_read_requests[ch_id].find(front_addr) !=
-- 
2.43.0


From a07a7e78b64813041ecc054dacde04db4087063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 17/64] fix: mem_controller drives buser together with the
 write response it belongs to

---
 rad-sim/sim/dram/mem_controller.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 3508780..8d00d8c 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -452,6 +452,9 @@ void mem_controller::Tick() {
                                        0);
       mem_channels[ch_id].rvalid.write(_output_read_responses[ch_id].size() >
                                        0);
+      if (_output_write_responses[ch_id].size() > 0) {
+        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
+      }
       if (_output_read_responses[ch_id].size() > 0) {
         mem_channels[ch_id].rdata.write(
             std::get<1>(_output_read_responses[ch_id].front()));
@@ -600,10 +603,6 @@ void mem_controller::Assign() {
           write_output_queue_ok);
       mem_channels[ch_id].arready.write(read_input_queue_ok &&
                                         read_output_queue_ok);
-
-      if (_output_write_responses[ch_id].size() > 0) {
-        mem_channels[ch_id].buser.write(_output_write_responses[ch_id].front());
-      }
     }
   }
 }
-- 
2.43.0


From 50460f28e6c4ac0dd6f25f306546e962325b5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 18/64] fix: mem_controller issues a write only when it has
 both its address and its data

---
 rad-sim/sim/dram/mem_controller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 8d00d8c..2818dce 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -514,7 +514,8 @@ void mem_controller::MemTick() {
                 std::make_tuple(read_addr, resp_addr, last));
           }
           // Issue write request to DRAMsim
-        } else if (_write_data_queue[ch_id].size() > 0) {
+        } else if (_write_data_queue[ch_id].size() > 0 &&
+                   _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
@@ -538,7 +539,8 @@ void mem_controller::MemTick() {
     } else {
       for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
         // Issue write request to DRAMsim
-        if (_write_data_queue[ch_id].size() > 0) {
+        if (_write_data_queue[ch_id].size() > 0 &&
+            _write_address_queue[ch_id].size() > 0) {
           uint64_t resp_addr = _write_data_queue[ch_id].front().first;
           uint64_t write_addr = _write_address_queue[ch_id].front().first;
           bool last = _write_address_queue[ch_id].front().second;
-- 
2.43.0


From 6fcc8082eb43d7a3813040b367eb235379c6c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:07 +0000
Subject: [PATCH 19/64] fix: AXI-MM request channels at a NoC master adapter no
 longer block each other

A write address that the slave does not take yet was presented ahead of the
write data the slave waited for, and nothing moved again.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 130 ++++++++++++-----------
 rad-sim/sim/noc/aximm_master_adapter.hpp |   4 +-
 2 files changed, 69 insertions(+), 65 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index cb02ee2..638c759 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -62,6 +62,7 @@ aximm_master_adapter::aximm_master_adapter(
   _bready = false;
   _injection_flit_ready = false;
   _output_packet_ready = false;
+  _output_priority = 0;
   _last_vc_id = 0;
 
   // Response pipeline modules described as SystemC methods and threads
@@ -167,6 +168,15 @@ void aximm_master_adapter::OutputEjection() {
   }
 }
 
+// A packet can be depacketized when all of it arrived and the output double
+// buffer (FIFO of size 2) of its channel (AR, AW, W) has free space
+bool aximm_master_adapter::CanDepacketize(unsigned int vc_id) {
+  if (_ejection_afifo_push_counter[vc_id].read() <=
+      _ejection_afifo_pop_counter[vc_id].read())
+    return false;
+  return _output_afifo[_ejection_afifos[vc_id].front()._type].size() < 2;
+}
+
 void aximm_master_adapter::OutputDepacketization() {
   // Reset Code
   for (auto &ejection_afifo_pop_counter : _ejection_afifo_pop_counter) {
@@ -177,8 +187,8 @@ void aximm_master_adapter::OutputDepacketization() {
   while (true) {
     unsigned int highest_priority_fifo_id = _ejection_afifo_priority.front();
     bool fifo_has_complete_packet =
-        _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
-        _ejection_afifo_pop_counter[highest_priority_fifo_id].read();
+        _ejection_afifo_is_depacketizing.read() ||
+        CanDepacketize(highest_priority_fifo_id);
 
     // If no ejection FIFO is currently being depacketized
     if (!_ejection_afifo_is_depacketizing.read()) {
@@ -187,7 +197,7 @@ void aximm_master_adapter::OutputDepacketization() {
       // By the end of this while loop: If fifo_has_complete_packet is true, the
       // highest priority FIFO index will be at the top of the priority queue.
       // If fifo_has_complete_packet is false, no FIFO has a complete packet
-      // ready
+      // ready whose channel can take it
       unsigned int num_checked_fifos = 0;
       while (!fifo_has_complete_packet &&
              num_checked_fifos < _num_vcs) {
@@ -195,52 +205,44 @@ void aximm_master_adapter::OutputDepacketization() {
         _ejection_afifo_priority.pop();
         num_checked_fifos++;
         highest_priority_fifo_id = _ejection_afifo_priority.front();
-        fifo_has_complete_packet =
-            _ejection_afifo_push_counter[highest_priority_fifo_id].read() >
-            _ejection_afifo_pop_counter[highest_priority_fifo_id].read();
+        fifo_has_complete_packet = CanDepacketize(highest_priority_fifo_id);
       }
     }
 
     // If there is a complete packet, set depacketization flag and start
     // processing it
     if (fifo_has_complete_packet) {
-      // If output double buffer (FIFO of size 2) has free space, depacketize
-      // flits
-      if (_output_afifo.size() < 2) {
-        // Pop a flit from the highest priority ejection FIFO
-        sc_flit processed_flit =
-            _ejection_afifos[highest_priority_fifo_id].front();
-        _ejection_afifos[highest_priority_fifo_id].pop();
-        _constructed_packet.AddFlit(processed_flit);
-
-        // Write credit for the accepted flit to the corresponding VC
-        _ejected_flits->insert(
-            make_pair(_node_id, processed_flit._vc_id.to_uint()));
-
-        // If the flit is a tail, push constructed packet to output double
-        // buffer & reset depacketization flag
-        if (processed_flit._tail) {
-          _output_afifo.push(_constructed_packet);
-          NoCTransactionTelemetry::RecordTransactionTailDepacketization(
-              processed_flit._sim_transaction_id);
-          _constructed_packet.Reset();
-          _ejection_afifo_is_depacketizing.write(false);
-
-          // Update FIFO packet pop counter
-          int updated_count =
-              _ejection_afifo_pop_counter[highest_priority_fifo_id].read() + 1;
-          _ejection_afifo_pop_counter[highest_priority_fifo_id].write(
-              updated_count);
-          assert(updated_count <=
-                 _ejection_afifo_push_counter[highest_priority_fifo_id]);
-
-          // Adjust ejection FIFOs priority status
-          _ejection_afifo_priority.push(_ejection_afifo_priority.front());
-          _ejection_afifo_priority.pop();
-          // std::cout << this->name() << ": Depacketized packet!" << std::endl;
-        } else {
-          _ejection_afifo_is_depacketizing.write(true);
-        }
+      // Pop a flit from the highest priority ejection FIFO
+      sc_flit processed_flit =
+          _ejection_afifos[highest_priority_fifo_id].front();
+      _ejection_afifos[highest_priority_fifo_id].pop();
+      _constructed_packet.AddFlit(processed_flit);
+
+      // Write credit for the accepted flit to the corresponding VC
+      _ejected_flits->insert(
+          make_pair(_node_id, processed_flit._vc_id.to_uint()));
+
+      // If the flit is a tail, push constructed packet to output double
+      // buffer & reset depacketization flag
+      if (processed_flit._tail) {
+        _output_afifo[processed_flit._type].push(_constructed_packet);
+        NoCTransactionTelemetry::RecordTransactionTailDepacketization(
+            processed_flit._sim_transaction_id);
+        _constructed_packet.Reset();
+        _ejection_afifo_is_depacketizing.write(false);
+
+        // Update FIFO packet pop counter
+        int updated_count =
+            _ejection_afifo_pop_counter[highest_priority_fifo_id].read() + 1;
+        _ejection_afifo_pop_counter[highest_priority_fifo_id].write(
+            updated_count);
+        assert(updated_count <=
+               _ejection_afifo_push_counter[highest_priority_fifo_id]);
+
+        // Adjust ejection FIFOs priority status
+        _ejection_afifo_priority.push(_ejection_afifo_priority.front());
+        _ejection_afifo_priority.pop();
+        // std::cout << this->name() << ": Depacketized packet!" << std::endl;
       } else {
         _ejection_afifo_is_depacketizing.write(true);
       }
@@ -258,18 +260,28 @@ void aximm_master_adapter::OutputInterface() {
   wait();
 
   while (true) {
-    // Hold a presented transaction until it is accepted
-    if ((aximm_interface.arvalid.read() && !aximm_interface.arready.read()) ||
-        (aximm_interface.awvalid.read() && !aximm_interface.awready.read()) ||
-        (aximm_interface.wvalid.read() && !aximm_interface.wready.read())) {
-      wait();
-      continue;
-    }
+    // Each channel holds a presented transaction until it is accepted, without
+    // keeping the other channels from presenting theirs
+    bool channel_ready[3];
+    channel_ready[Flit::FlitType::READ_REQUEST] = aximm_interface.arready.read();
+    channel_ready[Flit::FlitType::WRITE_REQUEST] =
+        aximm_interface.awready.read();
+    channel_ready[Flit::FlitType::WRITE_DATA] = aximm_interface.wready.read();
+    if (aximm_interface.arready.read())
+      aximm_interface.arvalid.write(false);
+    if (aximm_interface.awready.read())
+      aximm_interface.awvalid.write(false);
+    if (aximm_interface.wready.read())
+      aximm_interface.wvalid.write(false);
 
-    if (!_output_afifo.empty() > 0 && !_output_packet_ready) {
-      _output_packet = _output_afifo.front();
-      _output_afifo.pop();
-      _output_packet_ready = true;
+    for (unsigned int i = 0; i < 3 && !_output_packet_ready; i++) {
+      unsigned int type = (_output_priority + i) % 3;
+      if (channel_ready[type] && !_output_afifo[type].empty()) {
+        _output_packet = _output_afifo[type].front();
+        _output_afifo[type].pop();
+        _output_packet_ready = true;
+        _output_priority = (type + 1) % 3;
+      }
     }
     if (_output_packet_ready &&
         (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
@@ -287,8 +299,6 @@ void aximm_master_adapter::OutputInterface() {
         temp_bv.range(end_idx - 1, start_idx) = flit_payload;
       }
 
-      aximm_interface.awvalid.write(false);
-      aximm_interface.wvalid.write(false);
       aximm_interface.arvalid.write(true);
       aximm_interface.arid.write(temp_flit->_packet_id);
       aximm_interface.araddr.write(AXI4_ADDR(temp_bv));
@@ -324,8 +334,6 @@ void aximm_master_adapter::OutputInterface() {
         temp_bv.range(end_idx - 1, start_idx) = flit_payload;
       }
 
-      aximm_interface.arvalid.write(false);
-      aximm_interface.wvalid.write(false);
       aximm_interface.awvalid.write(true);
       aximm_interface.awid.write(temp_flit->_packet_id);
       aximm_interface.awaddr.write(AXI4_ADDR(temp_bv));
@@ -360,8 +368,6 @@ void aximm_master_adapter::OutputInterface() {
         temp_bv.range(end_idx - 1, start_idx) = flit_payload;
       }
 
-      aximm_interface.arvalid.write(false);
-      aximm_interface.awvalid.write(false);
       aximm_interface.wvalid.write(true);
       aximm_interface.wid.write(temp_flit->_packet_id);
       aximm_interface.wlast.write(AXI4_LAST(temp_bv).to_uint());
@@ -370,10 +376,6 @@ void aximm_master_adapter::OutputInterface() {
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-    } else {
-      aximm_interface.arvalid.write(false);
-      aximm_interface.awvalid.write(false);
-      aximm_interface.wvalid.write(false);
     }
     wait();
   }
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 82fbe3c..db0986f 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -48,7 +48,8 @@ private:
   std::queue<unsigned int> _ejection_afifo_priority;
   sc_signal<bool> _ejection_afifo_is_depacketizing;
 
-  std::queue<sc_packet> _output_afifo;
+  std::queue<sc_packet> _output_afifo[3]; // One per request type (AR, AW, W)
+  unsigned int _output_priority;
   sc_packet _constructed_packet, _output_packet;
   bool _output_packet_ready;
 
@@ -98,6 +99,7 @@ public:
   ~aximm_master_adapter();
 
   void OutputInterface();
+  bool CanDepacketize(unsigned int vc_id);
   void OutputDepacketization();
   void OutputEjection();
 
-- 
2.43.0


From 8bfc1356f47fae5062a56b0f233653fed555c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:20 +0000
Subject: [PATCH 20/64] fix: derive a port's base address from the address
 field the adapters decode

---
 rad-sim/sim/design_context.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..2e1fcef 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -70,21 +70,9 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
   return module_name;
 }
 
-uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
-  int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
-  int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
-  uint64_t base_addr = noc_id << node_bits;
-  base_addr += node_id;
-  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
-  return base_addr;
+uint64_t DetermineBaseAddress(int node_id) {
+  // The adapters take the destination node from the top AXI4_NODE_ADDRW bits
+  return (uint64_t)node_id << (AXI4_ADDRW - AXI4_NODE_ADDRW);
 }
 
 void RADSimDesignContext::ParseNoCPlacement(const std::string &placement_filename) {
@@ -154,7 +142,7 @@ void RADSimDesignContext::ParseNoCPlacement(const std::string &placement_filenam
 
         // Set base address information
         _aximm_port_base_addresses[port_name] =
-            DetermineBaseAddress(port_noc_placement, port_node_placement, rad_id);
+            DetermineBaseAddress(port_node_placement);
       }
     } else {
       std::string module_name, port_name, port_noc_placement_str,
@@ -258,7 +246,7 @@ void RADSimDesignContext::ParseNoCPlacement(const std::string &placement_filenam
           }
           // Set base address information
           _aximm_port_base_addresses[port_name] =
-              DetermineBaseAddress(port_noc_placement, port_node_placement, rad_id);
+              DetermineBaseAddress(port_node_placement);
         }
 
         for (unsigned int port_id = 0;
@@ -288,7 +276,7 @@ void RADSimDesignContext::ParseNoCPlacement(const std::string &placement_filenam
           }
           // Set base address information
           _aximm_port_base_addresses[port_name] =
-              DetermineBaseAddress(port_noc_placement, port_node_placement, rad_id);
+              DetermineBaseAddress(port_node_placement);
         }
       }
       _node_module_names[port_noc_placement][port_node_placement].insert(
-- 
2.43.0


From a9aec58753a0ace310882a1e60f4c60b41ae0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 21/64] fix: record the portal as destination of a transaction
 that leaves the device

---
 rad-sim/sim/noc/axis_slave_adapter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 7055e41..319b82a 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -124,11 +124,14 @@ void axis_slave_adapter::InputInterface() {
         input_transaction.tstrb = axis_interfaces[interface_id].tstrb.read();
         input_transaction.tuser = axis_interfaces[interface_id].tuser.read();
         
-        // Log transaction initiation to get a unique packet ID
+        // Log transaction initiation to get a unique packet ID. On this NoC, a
+        // transaction to another RAD ends at the portal.
+        int noc_dest = (DEST_RAD(input_transaction.tdest) == _rad_id)
+                           ? GetInputDestinationNode(input_transaction.tdest)
+                           : (int)_portal_id;
         int unique_sim_packet_id =
             NoCTransactionTelemetry::RecordTransactionInitiation(
-                _node_id,
-                GetInputDestinationNode(axis_interfaces[interface_id].tdest.read()),
+                _node_id, noc_dest,
                 _interface_types[interface_id], _interface_dataw[interface_id],
                 _network_id);
 
-- 
2.43.0


From bbab9d691a786920d6795a56985383b5c575f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 22/64] fix: keep the traffic flows of different devices apart

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 6 +++---
 rad-sim/sim/noc/axis_slave_adapter.cpp   | 2 +-
 rad-sim/sim/radsim_telemetry.cpp         | 6 +++++-
 rad-sim/sim/radsim_telemetry.hpp         | 5 ++++-
 5 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 638c759..2f33d70 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -465,7 +465,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_R, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     } else if (aximm_interface.bready.read() && aximm_interface.bvalid.read()) {
       // Capture the values at the AXI B port
@@ -487,7 +487,7 @@ void aximm_master_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_B, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
     } else if (!IsPending()) {
       _i_valid.write(false);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 9ef1f05..3ee92d2 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -195,7 +195,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AR, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       // std::cout << this->name() << ": Registered AR transaction (user = "
       //           << aximm_interface.aruser.read().to_uint64() << ")!"
@@ -228,7 +228,7 @@ void aximm_slave_adapter::InputInterface() {
 
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
-          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id);
+          _node_id, noc_dest, AXI_TYPE_AW, _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered AW transaction (user = "
                 << aximm_interface.awuser.read().to_uint64() << ")!"
@@ -254,7 +254,7 @@ void aximm_slave_adapter::InputInterface() {
       // Record initiation time in simulation statistics
       int unique_sim_id = NoCTransactionTelemetry::RecordTransactionInitiation(
           _node_id, (int)_last_awdest.read().to_uint(), AXI_TYPE_W,
-          _interface_dataw, _network_id);
+          _interface_dataw, _network_id, _rad_id);
       _i_unique_sim_id.write(unique_sim_id);
       /*std::cout << this->name() << ": Registered W transaction (user = "
                 << aximm_interface.wuser.read().to_uint64() << ")!"
diff --git a/rad-sim/sim/noc/axis_slave_adapter.cpp b/rad-sim/sim/noc/axis_slave_adapter.cpp
index 319b82a..7599658 100644
--- a/rad-sim/sim/noc/axis_slave_adapter.cpp
+++ b/rad-sim/sim/noc/axis_slave_adapter.cpp
@@ -133,7 +133,7 @@ void axis_slave_adapter::InputInterface() {
             NoCTransactionTelemetry::RecordTransactionInitiation(
                 _node_id, noc_dest,
                 _interface_types[interface_id], _interface_dataw[interface_id],
-                _network_id);
+                _network_id, _rad_id);
 
         // Register the packet ID, transaction type, and which interface it came from
         input_transaction.transaction_id = unique_sim_packet_id;
diff --git a/rad-sim/sim/radsim_telemetry.cpp b/rad-sim/sim/radsim_telemetry.cpp
index a8a5c5e..cdb993f 100644
--- a/rad-sim/sim/radsim_telemetry.cpp
+++ b/rad-sim/sim/radsim_telemetry.cpp
@@ -7,13 +7,15 @@ NoCTransactionTelemetry::NoCTransactionTelemetry() {}
 NoCTransactionTelemetry::~NoCTransactionTelemetry() {}
 
 // Records the initiation timestamp of a transaction and returns its unique global ID
-int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id) {
+int NoCTransactionTelemetry::RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id,
+  unsigned int rad_id) {
   NoCTransactionTrace entry;
   entry.src_node = src;
   entry.dest_node = ((1 << AXIS_DEST_FIELDW) - 1) & dest; //extract only local NoC node. ignore any remote NoC node set for inter-rad network.
   entry.transaction_type = type;
   entry.dataw = dataw;
   entry.network_id = network_id;
+  entry.rad_id = rad_id;
   entry.t_init = sc_time_stamp().to_double() / 1000;
   global_transaction_id++;
   trace_bookkeeping[global_transaction_id] = entry;
@@ -75,6 +77,8 @@ std::vector<double> NoCTransactionTelemetry::DumpTrafficFlows(const std::string&
     traffic_num_hops[noc_id].resize(num_nodes);
   }
   for (auto& entry : trace_bookkeeping) {
+    if (entry.second.rad_id != rad_id)
+      continue;
     unsigned int noc_id = (unsigned int) entry.second.network_id;
     unsigned int src = (unsigned int) entry.second.src_node;
     unsigned int dest = (unsigned int) entry.second.dest_node;
diff --git a/rad-sim/sim/radsim_telemetry.hpp b/rad-sim/sim/radsim_telemetry.hpp
index 3d4638f..f9932cf 100644
--- a/rad-sim/sim/radsim_telemetry.hpp
+++ b/rad-sim/sim/radsim_telemetry.hpp
@@ -18,6 +18,7 @@ struct NoCTransactionTrace {
   int transaction_type;     // Transaction type
   int dataw;                // Data width of the transaction in bits
   int network_id;           // NoC ID of the transaction
+  unsigned int rad_id;      // RAD whose NoC the transaction goes through
   double t_init;            // Time at which transaction is initiated
   double t_packet;          // Time at which transaction is packetized
   double t_inject;          // Time at which head flit of transaction is injected into the NoC
@@ -33,6 +34,7 @@ struct NoCTransactionTrace {
         transaction_type(0),
         dataw(0),
         network_id(0),
+        rad_id(0),
         t_init(0.0),
         t_packet(0.0),
         t_inject(0.0),
@@ -50,7 +52,8 @@ class NoCTransactionTelemetry {
 
   NoCTransactionTelemetry();
   ~NoCTransactionTelemetry();
-  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id);
+  static int RecordTransactionInitiation(int src, int dest, int type, int dataw, int network_id,
+    unsigned int rad_id = 0);
   static void RecordTransactionTailPacketization(int id);
   static void RecordTransactionHeadInjection(int id);
   static void RecordTransactionTailEjection(int id);
-- 
2.43.0


From 74e3fdff1f1bd8afa080ca5490489b11add2c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 23/64] fix: max_size allocator sizes its path table by
 outputs, not inputs

---
 rad-sim/sim/noc/booksim/allocators/maxsize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
index ffa11b4..5b9ec0f 100644
--- a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
@@ -112,7 +112,7 @@ bool MaxSizeMatch::_ShortestAugmenting( )
     }
   }
 
-  _from.assign(_inputs, -1);
+  _from.assign(_outputs, -1);
 
   for ( int iter = 0; iter < _inputs; iter++ ) {
     nslen = 0;
-- 
2.43.0


From 3bc83648a62f3b82e3efb6d3c5f315d7e8a2443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 24/64] fix: select allocator drops the grants of earlier
 iterations

---
 rad-sim/sim/noc/booksim/allocators/selalloc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
index adf0c10..ee74203 100644
--- a/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/selalloc.cpp
@@ -59,11 +59,11 @@ void SelAlloc::Allocate( )
   int max_index;
   int max_pri;
 
-  vector<int> grants(_outputs, -1);
-
   for ( int iter = 0; iter < _iter; ++iter ) {
     // Grant phase
 
+    vector<int> grants(_outputs, -1);
+
     for( outer_iter = _out_occ.begin( ); 
 	 outer_iter != _out_occ.end( ); ++outer_iter ) {
       output = *outer_iter;
-- 
2.43.0


From 4644b7f07a7637ab803f384aebe10520594fb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 25/64] fix: accept an integer literal as the value of a real
 configuration field

---
 rad-sim/sim/noc/booksim/config_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/noc/booksim/config_utils.cpp b/rad-sim/sim/noc/booksim/config_utils.cpp
index 04f7634..cc78ee4 100644
--- a/rad-sim/sim/noc/booksim/config_utils.cpp
+++ b/rad-sim/sim/noc/booksim/config_utils.cpp
@@ -71,6 +71,9 @@ void Configuration::Assign(string const & field, int value)
   match = _int_map.find(field);
   if(match != _int_map.end()) {
     _int_map[field] = value;
+  } else if(_float_map.count(field) > 0) {
+    // a real value written without a fraction
+    Assign(field, (double)value);
   } else {
     ParseError("Unknown integer field: " + field);
   }
-- 
2.43.0


From 8aa67115f20abdd88b4cd3eea8eaec3f6eb8c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 26/64] fix: a number assigned after a string of the same
 configuration field takes effect

---
 rad-sim/sim/noc/booksim/config_utils.cpp | 30 +++++++++++++++++-------
 rad-sim/sim/noc/booksim/config_utils.hpp |  2 ++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/config_utils.cpp b/rad-sim/sim/noc/booksim/config_utils.cpp
index cc78ee4..f750f9d 100644
--- a/rad-sim/sim/noc/booksim/config_utils.cpp
+++ b/rad-sim/sim/noc/booksim/config_utils.cpp
@@ -71,6 +71,7 @@ void Configuration::Assign(string const & field, int value)
   match = _int_map.find(field);
   if(match != _int_map.end()) {
     _int_map[field] = value;
+    ClearStr(field);
   } else if(_float_map.count(field) > 0) {
     // a real value written without a fraction
     Assign(field, (double)value);
@@ -86,11 +87,21 @@ void Configuration::Assign(string const & field, double value)
   match = _float_map.find(field);
   if(match != _float_map.end()) {
     _float_map[field] = value;
+    ClearStr(field);
   } else {
     ParseError("Unknown double field: " + field);
   }
 }
 
+void Configuration::ClearStr(string const & field)
+{
+  // some numeric fields also accept a string (e.g. a list), which is used
+  // instead of the number unless empty; a later number replaces it
+  if(_str_map.count(field) > 0) {
+    _str_map[field] = "";
+  }
+}
+
 string Configuration::GetStr(string const & field) const
 {
   map<string, string>::const_iterator match;
@@ -267,15 +278,6 @@ void Configuration::WriteFile(string const & filename) {
   ostream *config_out= new ofstream(filename.c_str());
   
   
-  for(map<string,string>::const_iterator i = _str_map.begin(); 
-      i!=_str_map.end();
-      i++){
-    //the parser won't read empty strings
-    if(i->second[0]!='\0'){
-      *config_out<<i->first<<" = "<<i->second<<";"<<endl;
-    }
-  }
-  
   for(map<string, int>::const_iterator i = _int_map.begin(); 
       i!=_int_map.end();
       i++){
@@ -289,6 +291,16 @@ void Configuration::WriteFile(string const & filename) {
     *config_out<<i->first<<" = "<<i->second<<";"<<endl;
 
   }
+  // after the numbers, which would reset a string of the same name
+  for(map<string,string>::const_iterator i = _str_map.begin(); 
+      i!=_str_map.end();
+      i++){
+    //the parser won't read empty strings
+    if(i->second[0]!='\0'){
+      *config_out<<i->first<<" = "<<i->second<<";"<<endl;
+    }
+  }
+
   config_out->flush();
   delete config_out;
  
diff --git a/rad-sim/sim/noc/booksim/config_utils.hpp b/rad-sim/sim/noc/booksim/config_utils.hpp
index e734344..078bac4 100644
--- a/rad-sim/sim/noc/booksim/config_utils.hpp
+++ b/rad-sim/sim/noc/booksim/config_utils.hpp
@@ -47,6 +47,8 @@ protected:
   map<string,int>    _int_map;
   map<string,double> _float_map;
   
+  void ClearStr(string const & field);
+
 public:
   Configuration();
 
-- 
2.43.0


From f315ba7de74fea916a78a9c15f5bdce3940d46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 27/64] fix: write real configuration values exactly and as
 reals

---
 rad-sim/sim/noc/booksim/config_utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/noc/booksim/config_utils.cpp b/rad-sim/sim/noc/booksim/config_utils.cpp
index f750f9d..66dd5cf 100644
--- a/rad-sim/sim/noc/booksim/config_utils.cpp
+++ b/rad-sim/sim/noc/booksim/config_utils.cpp
@@ -36,6 +36,7 @@
 #include <sstream>
 #include <fstream>
 #include <cstdlib>
+#include <iomanip>
 
 #include "config_utils.hpp"
 
@@ -276,6 +277,8 @@ bool ParseArgs(Configuration * cf, int argc, char * * argv)
 void Configuration::WriteFile(string const & filename) {
   
   ostream *config_out= new ofstream(filename.c_str());
+  // exact, and never mistaken for an integer
+  *config_out<<std::scientific<<std::setprecision(16);
   
   
   for(map<string, int>::const_iterator i = _int_map.begin(); 
-- 
2.43.0


From bf891c77db1c171bdc04969d13305799dd157a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 28/64] fix: parse a configuration into the object asked, not
 the one created last

---
 rad-sim/sim/noc/booksim/config_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/noc/booksim/config_utils.cpp b/rad-sim/sim/noc/booksim/config_utils.cpp
index 66dd5cf..5b5a9e0 100644
--- a/rad-sim/sim/noc/booksim/config_utils.cpp
+++ b/rad-sim/sim/noc/booksim/config_utils.cpp
@@ -162,6 +162,7 @@ vector<double> Configuration::GetFloatArray(string const & field) const
 
 void Configuration::ParseFile(string const & filename)
 {
+  theConfig = this;
   if((_config_file = fopen(filename.c_str(), "r")) == 0) {
     cerr << "Could not open configuration file " << filename << endl;
     exit(-1);
@@ -175,6 +176,7 @@ void Configuration::ParseFile(string const & filename)
 
 void Configuration::ParseString(string const & str)
 {
+  theConfig = this;
   _config_string = str + ';';
   yyparse();
   _config_string = "";
-- 
2.43.0


From dea819b3d8da8380051f4704cc16c147e4a24323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:30 +0000
Subject: [PATCH 29/64] fix: feed long configuration strings to the lexer in
 pieces

---
 rad-sim/sim/noc/booksim/config_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/config_utils.cpp b/rad-sim/sim/noc/booksim/config_utils.cpp
index 5b5a9e0..aa84059 100644
--- a/rad-sim/sim/noc/booksim/config_utils.cpp
+++ b/rad-sim/sim/noc/booksim/config_utils.cpp
@@ -189,9 +189,8 @@ int Configuration::Input(char * line, int max_size)
   if(_config_file) {
     length = fread(line, 1, max_size, _config_file);
   } else {
-    length = _config_string.length();
-    _config_string.copy(line, max_size);
-    _config_string.clear();
+    length = _config_string.copy(line, max_size);
+    _config_string.erase(0, length);
   }
 
   return length;
-- 
2.43.0


From 16efbb069a4f5af1a2cb79789cd28994785ec535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 30/64] fix: anynet: keep a node link's latency with the node,
 and read lines that start with a node

---
 rad-sim/sim/noc/booksim/networks/anynet.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/anynet.cpp b/rad-sim/sim/noc/booksim/networks/anynet.cpp
index 5ed6430..e3418c9 100644
--- a/rad-sim/sim/noc/booksim/networks/anynet.cpp
+++ b/rad-sim/sim/noc/booksim/networks/anynet.cpp
@@ -390,12 +390,14 @@ void AnyNet::readFile(){
 	head_id = atoi(temp.c_str());
 
 	//intialize router structures
-	if(router_list[NODE].count(head_id) == 0){
-	  router_list[NODE][head_id] = map<int, pair<int,int> >();
+	if(head_type==ROUTER){
+	  if(router_list[NODE].count(head_id) == 0){
+	    router_list[NODE][head_id] = map<int, pair<int,int> >();
+	  }
+	  if(router_list[ROUTER].count(head_id) == 0){
+	    router_list[ROUTER][head_id] = map<int, pair<int,int> >();
+	  }
 	}
-	if(router_list[ROUTER].count(head_id) == 0){
-	  router_list[ROUTER][head_id] = map<int, pair<int,int> >();
-	}  
 
 	state=BODY_TYPE;
 	break;
@@ -405,7 +407,11 @@ void AnyNet::readFile(){
 	  //ignore
 	} else {
 	  link_weight= atoi(temp.c_str());
-	  router_list[head_type][head_id][body_id].second=link_weight;
+	  if(head_type==ROUTER){
+	    router_list[body_type][head_id][body_id].second=link_weight;
+	  } else { //a node's link is kept with its router
+	    router_list[NODE][body_id][head_id].second=link_weight;
+	  }
 	  break;
 	}
 	//intentionally letting it flow through
-- 
2.43.0


From b8cb5187a3a3c65609fa90037e050f77166372a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 31/64] fix: routing: halves of a class with an odd number of
 VCs must not overlap

---
 rad-sim/sim/noc/booksim/networks/cmesh.cpp    |  4 ++--
 .../noc/booksim/networks/flatfly_onchip.cpp   | 14 ++++++-------
 rad-sim/sim/noc/booksim/routefunc.cpp         | 20 +++++++++----------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.cpp b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
index f597708..bd1dcac 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.cpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
@@ -510,7 +510,7 @@ void xy_yx_cmesh( const Router *r, const Flit *f, int in_channel,
 
       if(x_then_y) {
 	out_port = cmesh_xy( cur_router, dest_router );
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	out_port = cmesh_yx( cur_router, dest_router );
 	vcBegin += available_vcs;
@@ -653,7 +653,7 @@ void xy_yx_no_express_cmesh( const Router *r, const Flit *f, int in_channel,
 
       if(x_then_y) {
 	out_port = cmesh_xy_no_express( cur_router, dest_router );
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	out_port = cmesh_yx_no_express( cur_router, dest_router );
 	vcBegin += available_vcs;
diff --git a/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp b/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp
index 60f341d..c09ee16 100644
--- a/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp
+++ b/rad-sim/sim/noc/booksim/networks/flatfly_onchip.cpp
@@ -394,7 +394,7 @@ void adaptive_xyyx_flatfly( const Router *r, const Flit *f, int in_channel,
       
       if(x_then_y) {
 	out_port = out_port_xy;
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	out_port = out_port_yx;
 	vcBegin += available_vcs;
@@ -459,7 +459,7 @@ void xyyx_flatfly( const Router *r, const Flit *f, int in_channel,
 
       if(x_then_y) {
 	out_port = flatfly_outport(dest, r->GetID());
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	out_port = flatfly_outport_yx(dest, r->GetID());
 	vcBegin += available_vcs;
@@ -562,7 +562,7 @@ void valiant_flatfly( const Router *r, const Flit *f, int in_channel,
       assert(available_vcs > 0);
 
       if(f->ph == 0) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	// If routing to final destination use the second half of the VCs.
 	assert(f->ph == 1);
@@ -786,7 +786,7 @@ void ugal_xyyx_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
       if(x_then_y){
 	out_port =  flatfly_outport(dest, rID);
 	if(out_port >= gC) {
-	  vcEnd -= xy_available_vcs;
+	  vcEnd = vcBegin + xy_available_vcs - 1;
 	}
       } else {
 	out_port =  flatfly_outport_yx(dest, rID);
@@ -802,7 +802,7 @@ void ugal_xyyx_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
 	assert(ph_available_vcs > 0);
 
 	if(f->ph == 1) {
-	  vcEnd -= ph_available_vcs;
+	  vcEnd = vcBegin + ph_available_vcs - 1;
 	} else {
 	  assert(f->ph == 2);
 	  vcBegin += ph_available_vcs;
@@ -977,7 +977,7 @@ void ugal_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
 	int const available_vcs = (vcEnd - vcBegin + 1) / 2;
 	assert(available_vcs > 0);
 	if(f->ph == 1) {
-	  vcEnd -= available_vcs;
+	  vcEnd = vcBegin + available_vcs - 1;
 	} else {
 	  assert(f->ph == 2);
 	  vcBegin += available_vcs;
@@ -1153,7 +1153,7 @@ void ugal_pni_flatfly_onchip( const Router *r, const Flit *f, int in_channel,
 	int const available_vcs = (vcEnd - vcBegin + 1) / 2;
 	assert(available_vcs > 0);
 	if(f->ph == 1) {
-	  vcEnd -= available_vcs;
+	  vcEnd = vcBegin + available_vcs - 1;
 	} else {
 	  assert(f->ph == 2);
 	  vcBegin += available_vcs;
diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..78ed3b2 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -478,7 +478,7 @@ void adaptive_xy_yx_mesh( const Router *r, const Flit *f,
     
     if(x_then_y) {
       out_port = out_port_xy;
-      vcEnd -= available_vcs;
+      vcEnd = vcBegin + available_vcs - 1;
     } else {
       out_port = out_port_yx;
       vcBegin += available_vcs;
@@ -539,7 +539,7 @@ void xy_yx_mesh( const Router *r, const Flit *f,
 
     if(x_then_y) {
       out_port = dor_next_mesh( r->GetID(), f->dest, false );
-      vcEnd -= available_vcs;
+      vcEnd = vcBegin + available_vcs - 1;
     } else {
       out_port = dor_next_mesh( r->GetID(), f->dest, true );
       vcBegin += available_vcs;
@@ -890,7 +890,7 @@ void romm_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *outpu
       assert(available_vcs > 0);
 
       if(f->ph == 0) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	assert(f->ph == 1);
 	vcBegin += available_vcs;
@@ -1364,7 +1364,7 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
       assert(available_vcs > 0);
 
       if(f->ph == 0) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	assert(f->ph == 1);
 	vcBegin += available_vcs;
@@ -1435,7 +1435,7 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       assert(ring_available_vcs > 0);
 
       if(ring_part == 0) {
-	vcEnd -= ring_available_vcs;
+	vcEnd = vcBegin + ring_available_vcs - 1;
       } else {
 	assert(ring_part == 1);
 	vcBegin += ring_available_vcs;
@@ -1445,7 +1445,7 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       assert(ph_available_vcs > 0);
 
       if(phase == 0) {
-	vcEnd -= ph_available_vcs;
+	vcEnd = vcBegin + ph_available_vcs - 1;
       } else {
 	assert(phase == 1);
 	vcBegin += ph_available_vcs;
@@ -1528,7 +1528,7 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       assert(ring_available_vcs > 0);
 
       if(ring_part == 0) {
-	vcEnd -= ring_available_vcs;
+	vcEnd = vcBegin + ring_available_vcs - 1;
       } else {
 	assert(ring_part == 1);
 	vcBegin += ring_available_vcs;
@@ -1538,7 +1538,7 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       assert(ph_available_vcs > 0);
 
       if(phase == 0) {
-	vcEnd -= ph_available_vcs;
+	vcEnd = vcBegin + ph_available_vcs - 1;
       } else {
 	assert(phase == 1);
 	vcBegin += ph_available_vcs;
@@ -1610,7 +1610,7 @@ void dim_order_torus( const Router *r, const Flit *f, int in_channel,
       assert(available_vcs > 0);
 
       if ( f->ph == 0 ) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	vcBegin += available_vcs;
       } 
@@ -1748,7 +1748,7 @@ void dim_order_bal_torus( const Router *r, const Flit *f, int in_channel,
       assert(available_vcs > 0);
 
       if ( f->ph == 0 ) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	assert(f->ph == 1);
 	vcBegin += available_vcs;
-- 
2.43.0


From b83604938772554f151731c9d1efa5662f8854ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:42 +0000
Subject: [PATCH 32/64] fix: min_adapt_mesh: escape VC is the first of the
 packet's class

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 78ed3b2..94e7bd4 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
-- 
2.43.0


From ab54730db7575c2c0a63155b091228a29cc47b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:43 +0000
Subject: [PATCH 33/64] fix: valiant: keep phases, ring partitions and
 destinations apart when passing the destination router

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 43 ++++++++++++++-------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 94e7bd4..e2a29d9 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1356,8 +1356,8 @@ void valiant_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *ou
 
     out_port = dor_next_mesh( r->GetID( ), (f->ph == 0) ? f->intm : f->dest );
 
-    // at the destination router, we don't need to separate VCs by phase
-    if(r->GetID() != f->dest) {
+    // when ejecting, we don't need to separate VCs by phase
+    if(out_port != 2*gN) {
 
       //each class must have at least 2 vcs assigned or else valiant valiant will deadlock
       int const available_vcs = (vcEnd - vcBegin + 1) / 2;
@@ -1422,14 +1422,14 @@ void valiant_torus( const Router *r, const Flit *f, int in_channel, OutputSet *o
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
+    int ring_part = f->ph % 2; // kept while moving straight on
     dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when ejecting, we don't need to separate VCs by phase, etc.
+    if(out_port != 2*gN) {
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
@@ -1483,8 +1483,11 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
   }
   assert(((f->vc >= vcBegin) && (f->vc <= vcEnd)) || (inject && (f->vc < 0)));
 
-  // at the destination router, we don't need to separate VCs by destination
-  if(inject || (r->GetID() != f->dest)) {
+  int out_port;
+
+  if(inject) {
+
+    out_port = -1;
 
     int const vcs_per_dest = (vcEnd - vcBegin + 1) / gNodes;
     assert(vcs_per_dest > 0);
@@ -1492,14 +1495,6 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
     vcBegin += f->dest * vcs_per_dest;
     vcEnd = vcBegin + vcs_per_dest - 1;
 
-  }
-
-  int out_port;
-
-  if(inject) {
-
-    out_port = -1;
-
   } else {
 
     int phase;
@@ -1510,19 +1505,25 @@ void valiant_ni_torus( const Router *r, const Flit *f, int in_channel,
       phase = f->ph / 2;
     }
 
-    if ( ( f->ph == 0 ) && ( r->GetID( ) == f->intm ) ) {
-      f->ph = 1; // Go to phase 1
+    if ( ( phase == 0 ) && ( r->GetID( ) == f->intm ) ) {
+      phase = 1; // Go to phase 1
       in_channel = 2*gN; // ensures correct vc selection at the beginning of phase 2
     }
   
-    int ring_part;
-    dor_next_torus( r->GetID( ), (f->ph == 0) ? f->intm : f->dest, in_channel,
+    int ring_part = f->ph % 2; // kept while moving straight on
+    dor_next_torus( r->GetID( ), (phase == 0) ? f->intm : f->dest, in_channel,
 		    &out_port, &ring_part, false );
 
     f->ph = 2 * phase + ring_part;
 
-    // at the destination router, we don't need to separate VCs by phase, etc.
-    if(r->GetID() != f->dest) {
+    // when ejecting, we don't need to separate VCs by destination, phase, etc.
+    if(out_port != 2*gN) {
+
+      int const vcs_per_dest = (vcEnd - vcBegin + 1) / gNodes;
+      assert(vcs_per_dest > 0);
+
+      vcBegin += f->dest * vcs_per_dest;
+      vcEnd = vcBegin + vcs_per_dest - 1;
 
       int const ring_available_vcs = (vcEnd - vcBegin + 1) / 2;
       assert(ring_available_vcs > 0);
-- 
2.43.0


From 5e764375fdb8862a7f02639af3c15035ccb18490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:02 +0000
Subject: [PATCH 34/64] fix: xy_yx_cmesh: take express channels only when they
 lead closer, for every network size

---
 rad-sim/sim/noc/booksim/networks/cmesh.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.cpp b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
index bd1dcac..74bd86e 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.cpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
@@ -355,7 +355,7 @@ int cmesh_xy( int cur, int dest ) {
   // Dimension-order Routing: x , y
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > 1){
+    if ((dest_x - cur_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -365,7 +365,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > 1){
+    if ((cur_x - dest_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -375,7 +375,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > 1) {
+    if ((dest_y - cur_y) > gK/2-1) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -385,7 +385,7 @@ int cmesh_xy( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > 1 ){
+    if ((cur_y - dest_y) > gK/2-1){
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -411,7 +411,7 @@ int cmesh_yx( int cur, int dest ) {
   // Dimension-order Routing: y, x
   if (cur_y < dest_y) {
     // Express?
-    if ((dest_y - cur_y) > 1) {
+    if ((dest_y - cur_y) > gK/2-1) {
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -421,7 +421,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_y > dest_y) {
     // Express ?
-    if ((cur_y - dest_y) > 1 ){
+    if ((cur_y - dest_y) > gK/2-1){
       if (cur_x == 0)
     	return gC + NEGATIVE_X ;
       if (cur_x == (gK-1))
@@ -431,7 +431,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_x < dest_x) {
     // Express?
-    if ((dest_x - cur_x) > 1){
+    if ((dest_x - cur_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
@@ -441,7 +441,7 @@ int cmesh_yx( int cur, int dest ) {
   }
   if (cur_x > dest_x) {
     // Express ? 
-    if ((cur_x - dest_x) > 1){
+    if ((cur_x - dest_x) > gK/2-1){
       if (cur_y == 0)
     	return gC + NEGATIVE_Y ;
       if (cur_y == (gK-1))
-- 
2.43.0


From c06604aca5c625fa74223766dd2074dc370cdcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:14 +0000
Subject: [PATCH 35/64] fix: routers: start every waiting request although
 earlier ones are still in the pipeline (allocation delays above one aborted)

---
 rad-sim/sim/noc/booksim/routers/iq_router.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/routers/iq_router.cpp b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
index 2f66207..06caf2b 100644
--- a/rad-sim/sim/noc/booksim/routers/iq_router.cpp
+++ b/rad-sim/sim/noc/booksim/routers/iq_router.cpp
@@ -471,7 +471,7 @@ void IQRouter::_RouteEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _routing_delay - 1;
     
@@ -565,7 +565,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -714,7 +714,7 @@ void IQRouter::_VCAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _vc_alloc_delay - 1;
 
@@ -1337,7 +1337,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
 
     int const input = iter->second.first.first;
@@ -1503,7 +1503,7 @@ void IQRouter::_SWAllocEvaluate( )
 
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _sw_alloc_delay - 1;
 
@@ -2145,7 +2145,7 @@ void IQRouter::_SwitchEvaluate( )
     
     int const time = iter->first;
     if(time >= 0) {
-      break;
+      continue;
     }
     iter->first = GetSimTime() + _crossbar_delay - 1;
 
-- 
2.43.0


From 0069808a6a0b5ca6d515de538c9c7fde889df063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:02 +0000
Subject: [PATCH 36/64] fix: routing: keep alternatives of equal priority
 (adaptive functions offered one of them only)

---
 rad-sim/sim/noc/booksim/outputset.hpp | 12 +++++++++++-
 rad-sim/sim/noc/booksim/routefunc.cpp |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/outputset.hpp b/rad-sim/sim/noc/booksim/outputset.hpp
index 67717a8..cb9ce3d 100644
--- a/rad-sim/sim/noc/booksim/outputset.hpp
+++ b/rad-sim/sim/noc/booksim/outputset.hpp
@@ -58,7 +58,17 @@ private:
 
 inline bool operator<(const OutputSet::sSetElement & se1, 
 	       const OutputSet::sSetElement & se2) {
-  return se1.pri > se2.pri; // higher priorities first!
+  if(se1.pri != se2.pri) {
+    return se1.pri > se2.pri; // higher priorities first!
+  }
+  // alternatives of equal priority are kept side by side
+  if(se1.output_port != se2.output_port) {
+    return se1.output_port < se2.output_port;
+  }
+  if(se1.vc_start != se2.vc_start) {
+    return se1.vc_start < se2.vc_start;
+  }
+  return se1.vc_end < se2.vc_end;
 }
 
 #endif
diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index e2a29d9..4609d67 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1807,6 +1807,7 @@ void min_adapt_torus( const Router *r, const Flit *f, int in_channel, OutputSet
   } else if(r->GetID() == f->dest) {
     // ejection can also use all VCs
     outputs->AddRange(2*gN, vcBegin, vcEnd);
+    return;
   }
 
   int in_vc;
-- 
2.43.0


From 5f19170c96541cef8e1d272642134a4f40e3ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 37/64] fix: config.py: every RAD gets the network files, knobs
 and design of its own configuration

---
 rad-sim/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..a901211 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -98,7 +98,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
@@ -332,7 +332,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
@@ -397,7 +397,8 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        config_num = config_names.index(cluster_knobs["cluster_configs"][i]) #configuration used by this RAD
+        design_name = radsim_knobs[config_num]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From 2863cb38812e120918861a0de10fcc6f327a3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 38/64] fix: config.py: configuring an anynet topology no
 longer crashes

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index a901211..38c644b 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -146,7 +146,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_header_params["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From 88b8dc0a8ec6da36652f11f38257e1f42be55c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 39/64] fix: config.py: the default NoC type is a list like
 every other per-NoC parameter

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 38c644b..e69b69c 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -485,7 +485,7 @@ if __name__ == "__main__":
     # List default parameter values
     booksim_params = {
         "radsim_root_dir": os.getcwd(),
-        "noc_type": "2d",
+        "noc_type": ["2d"],
         "noc_num_nocs": 1,
         "noc_topology": ["mesh"],
         "noc_anynet_file": [os.getcwd() + "/sim/noc/anynet_file"],
-- 
2.43.0


From b71646dae8ef1d2255bf63b9f146c962547fa88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 40/64] fix: config.py: fractional inter-RAD bandwidths are
 granted as configured

---
 rad-sim/config.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index e69b69c..02b2efa 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -6,6 +6,7 @@ import shutil
 from itertools import repeat
 from copy import deepcopy
 from math import ceil
+from fractions import Fraction
 
 def parse_config_file(config_filename, booksim_params, radsim_header_params, radsim_knobs, cluster_knobs):
     with open(config_filename, 'r') as yaml_config:
@@ -314,17 +315,8 @@ def generate_radsim_params_header(radsim_header_params):
 def get_fraction(input_val):
     '''Returns tuple, where first value is numerator and second is denom'''
     print(input_val)
-    remainder = float('{:,.3f}'.format(input_val % 1)) #choosing to keep only 3 dec places. need to do this bc python stores floats as binary fraction
-    if remainder == 0: #whole number
-        return (int(input_val), 1)
-    else:
-        count = 0
-        while (remainder % 1 != 0):
-            remainder *= 10
-            count += 1
-        b = count * 10
-        a = (( input_val-(input_val%1) ) * b) + remainder
-        return (int(a), b)
+    fraction = Fraction(str(round(input_val, 3))) #choosing to keep only 3 dec places. Goes through a string bc python stores floats as binary fraction
+    return (fraction.numerator, fraction.denominator)
 
 
 def generate_radsim_config_file(radsim_knobs, cluster_knobs):
-- 
2.43.0


From 0a7f94e06efabb61113672fee8a7c32d129f107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 41/64] fix: config.py: an inter-RAD latency of a whole number
 of cycles is not rounded up by one

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 02b2efa..db8b3b8 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -336,7 +336,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
         if param == 'configs':
             continue
         elif param == 'inter_rad_latency':
-            radsim_config_file.write("inter_rad_latency_cycles " + str(ceil(cluster_knobs[param]/cluster_knobs["sim_driver_period"])) + "\n")
+            radsim_config_file.write("inter_rad_latency_cycles " + str(ceil(round(cluster_knobs[param]/cluster_knobs["sim_driver_period"], 6))) + "\n")
             continue
         elif param == 'inter_rad_bw':
             (inter_rad_bw_accept_cycles, inter_rad_bw_total_cycles) = get_fraction(cluster_knobs[param] * cluster_knobs["sim_driver_period"] / radsim_header_params["interfaces_max_axis_tdata_width"])
-- 
2.43.0


From db0537f8f0331c378eae5cc28e02f71b9b7ab133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 42/64] fix: config.py: the destination field is wide enough
 for the RAD ID

---
 rad-sim/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index db8b3b8..64d3f55 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -242,6 +242,8 @@ def generate_radsim_params_header(radsim_header_params):
     for n in radsim_header_params["noc_num_nodes"]:
         if n > max_num_nodes:
             max_num_nodes = n
+    if cluster_knobs["num_rads"] > max_num_nodes: #one of the destination fields holds the RAD ID
+        max_num_nodes = cluster_knobs["num_rads"]
     max_destination_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) * 3 #Multiply by 3 for (rad_id, node_id1, node_id0). If single RAD, node_id0 and node_id1 is the same. If not, node_id0 is portal and node_id1 is destination node on other RAD. 
     max_destination_field_bitwidth = int(math.ceil(math.log(max_num_nodes, 2))) #Bitwidth of a single field of the destination described above.
     radsim_params_header_file.write("#define NOC_LINKS_DEST_WIDTH      " + str(max_destination_bitwidth) + "\n")
-- 
2.43.0


From 69598457e2112182c22e92f28b8218ddf6acf23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:03 +0000
Subject: [PATCH 43/64] fix: config.py: a trace name with spaces is one trace

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 64d3f55..16feb75 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -355,7 +355,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
         
         if isinstance(cluster_knobs[param], list):
             for value in cluster_knobs[param]:
-                radsim_config_file.write(str(value) + " ")
+                radsim_config_file.write(str(value).replace(" ", "_") + " ") #values in the knob file are separated by spaces
             radsim_config_file.write("\n")
         else:
             radsim_config_file.write(str(cluster_knobs[param]) + "\n")
-- 
2.43.0


From 2d8dda4192fe22a6100ee8855e7b05194bf923be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:14 +0000
Subject: [PATCH 44/64] fix: config.py: more than one NoC can be configured

---
 rad-sim/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 16feb75..61c9170 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -73,6 +73,9 @@ def parse_config_file(config_filename, booksim_params, radsim_header_params, rad
 
     for i in range(0, num_configs):
         radsim_knobs[i]["radsim_user_design_root_dir"] = cluster_knobs["radsim_root_dir"] + "/example-designs/" + radsim_knobs[i]["design_name"]
+        #one entry per NoC, filled in when generating the NoC config files unless specified
+        for num_nodes in (radsim_header_params["noc_num_nodes"], radsim_knobs[i]["noc_num_nodes"]):
+            num_nodes.extend([0] * (radsim_knobs[i]["noc_num_nocs"] - len(num_nodes)))
 
     if config_counter != num_configs:
         print('number of unique config sections in config YAML file does not match commandline argument')
-- 
2.43.0


From 9fcb07403c1259dfe0abb05d7aacc1a9030dc997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:44 +0000
Subject: [PATCH 45/64] fix: a flit assigned to itself keeps its payload

---
 rad-sim/sim/noc/sc_flit.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/sc_flit.cpp b/rad-sim/sim/noc/sc_flit.cpp
index 87c25a1..7a1fd0c 100644
--- a/rad-sim/sim/noc/sc_flit.cpp
+++ b/rad-sim/sim/noc/sc_flit.cpp
@@ -53,8 +53,9 @@ sc_flit &sc_flit::operator=(const sc_flit &f) {
   _dest = f._dest;
   _dest_interface = f._dest_interface;
   _packet_id = f._packet_id;
-  _payload = AllocateFlitPayload();
-  *_payload = *(f._payload);
+  sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *payload = AllocateFlitPayload();
+  *payload = *(f._payload);
+  _payload = payload;
   _sim_transaction_id = f._sim_transaction_id;
   return *this;
 }
-- 
2.43.0


From 4b72482a30c07f9ea8d034b321c5dd64a7f043ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 46/64] fix: port mappings: ascending port ranges have their
 width

---
 rad-sim/scripts/generate_port_mappings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/generate_port_mappings.py b/rad-sim/scripts/generate_port_mappings.py
index 29ede96..52e6bce 100644
--- a/rad-sim/scripts/generate_port_mappings.py
+++ b/rad-sim/scripts/generate_port_mappings.py
@@ -32,11 +32,11 @@ def determine_port_width(port):
         if port_properties[0] == "reg" or port_properties[0] == "logic":
             return 1
         elif indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+            return abs(int(indices.groups()[0]) - int(indices.groups()[1])) + 1
     elif len(port_properties) == 2:
         indices = re.match(verilog_range_regex, port_properties[1])
         if indices and len(indices.groups()) == 2:
-            return int(indices.groups()[0]) - int(indices.groups()[1]) + 1
+            return abs(int(indices.groups()[0]) - int(indices.groups()[1])) + 1
     
     return "?"
 
-- 
2.43.0


From dabe08d293624ede248ec9191f97772e0f68ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 47/64] fix: wrapper generator: wrappers pass the design
 context to RADSimModule (they did not compile)

---
 rad-sim/scripts/generate_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index f9cc9de..418be9f 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -24,7 +24,7 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
     with open(modules_folder / (design_name + ".cpp"), "w") as wrapper_cpp_file:
       wrapper_cpp_file.write("#include <" + design_name + ".hpp>\n\n")
 
-      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name) : RADSimModule(name) {\n")
+      wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design) : RADSimModule(name, radsim_design) {\n")
 
       wrapper_cpp_file.write("\t" + "char " + design_inst + "_name[25];\n")
       wrapper_cpp_file.write("\tstd::string " + design_inst + "_name_str = std::string(name);\n")
@@ -131,7 +131,7 @@ def generate_header_wrapper(design_name, modules_folder, mappings, axis_roles, a
           else:
               wrapper_hpp_file.write("\taximm_slave_port " + aximm_interface + ";\n")
 
-      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name);\n")
+      wrapper_hpp_file.write("\n\t" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design);\n")
       wrapper_hpp_file.write("\t~" + design_name + "();\n\n")
 
       wrapper_hpp_file.write("\tSC_HAS_PROCESS(" + design_name + ");\n")
-- 
2.43.0


From 1501114f634fd9556873b1a859fb92f21985d371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 48/64] fix: wrapper generator: instance names of any length

---
 rad-sim/scripts/generate_wrapper.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rad-sim/scripts/generate_wrapper.py b/rad-sim/scripts/generate_wrapper.py
index 418be9f..2c327f3 100644
--- a/rad-sim/scripts/generate_wrapper.py
+++ b/rad-sim/scripts/generate_wrapper.py
@@ -26,10 +26,8 @@ def generate_source_wrapper(design_name, modules_folder, dataw, mappings, axis_r
 
       wrapper_cpp_file.write(design_name + "::" + design_name + "(const sc_module_name &name, RADSimDesignContext* radsim_design) : RADSimModule(name, radsim_design) {\n")
 
-      wrapper_cpp_file.write("\t" + "char " + design_inst + "_name[25];\n")
-      wrapper_cpp_file.write("\tstd::string " + design_inst + "_name_str = std::string(name);\n")
-      wrapper_cpp_file.write("\tstd::strcpy(" + design_inst + "_name, " + design_inst + "_name_str.c_str());\n\n")
-      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name};\n")
+      wrapper_cpp_file.write("\tstd::string " + design_inst + "_name = std::string(name);\n")
+      wrapper_cpp_file.write("\t" + design_inst + " = new " + verilated_design + "{" + design_inst + "_name.c_str()};\n")
 
       # inputs and outputs connections
       if not design_name in mappings:
-- 
2.43.0


From 85b2efd85f8993618ee7d3f0288188ad4e7c9897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 49/64] fix: Verilog parser: ports are declarations only, not
 words in names, strings, comments or subroutines

---
 rad-sim/scripts/verilog_parser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index ee7bfc4..069cd4f 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -20,9 +20,11 @@ verilog_tokens = {
     (r'//.*\n', None),
   ],
   'module': [
-    (r'parameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
-    (r'(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
-    (r'endmodule', 'end_module', '#pop'),
+    (r'\bparameter\s+(signed|integer|realtime|real|time)?\s*(\[[^]]+\])?', 'parameter_start', 'parameters'),
+    (r'\b(input|inout|output)\b\s*((?:logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(signed\b)?\s*(\[[^]]+\])?', 'module_port_start', 'module_port'),
+    (r'\bendmodule\b', 'end_module', '#pop'),
+    (r'\b(?:function|task)\b', None, 'subroutine'),
+    (r'"(?:\\.|[^"\\\n])*"', None),
     (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
@@ -43,12 +45,19 @@ verilog_tokens = {
     (r'\s*\)', None, '#pop'),
   ],
   'module_port': [
-    (r'\s*(input|inout|output)\s+(logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)?\s*(signed)?\s*(\[[^]]+\])?', 'module_port_start'),
+    (r'\s*\b(input|inout|output)\b\s*((?:logic|reg|supply0|supply1|tri|triand|trior|tri0|tri1|wire|wand|wor)\b)?\s*(signed\b)?\s*(\[[^]]+\])?', 'module_port_start'),
     (r'\s*(\w+)\s*,?', 'port_param'),
     (r'[);]', None, '#pop'),
+    (r'/\*', 'block_comment', 'block_comment'),
     (r'//#\s*{{(.*)}}\n', 'section_meta'),
     (r'//.*\n', None),
   ],
+  'subroutine': [
+    (r'\b(?:endfunction|endtask)\b', None, '#pop'),
+    (r'"(?:\\.|[^"\\\n])*"', None),
+    (r'/\*', 'block_comment', 'block_comment'),
+    (r'//.*\n', None),
+  ],
 
   'block_comment': [
     (r'\*/', 'end_comment', '#pop'),
-- 
2.43.0


From e443d43e66d0ce1cfb243bed17f84d5905b74b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:08 +0000
Subject: [PATCH 50/64] fix: Verilog parser: a parameter in the body does not
 change the type of the ports before it

---
 rad-sim/scripts/verilog_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/scripts/verilog_parser.py b/rad-sim/scripts/verilog_parser.py
index 069cd4f..134cc45 100644
--- a/rad-sim/scripts/verilog_parser.py
+++ b/rad-sim/scripts/verilog_parser.py
@@ -136,6 +136,7 @@ def parse_verilog(text):
   saved_type = None
   mode = 'input'
   ptype = 'wire'
+  param_ptype = ''
 
   metacomments = []
   parameters = []
@@ -179,10 +180,10 @@ def parse_verilog(text):
       if vec_range is not None:
         new_ptype += ' ' + vec_range
 
-      ptype = new_ptype
+      param_ptype = new_ptype
 
     elif action == 'param_item':
-      generics.append(VerilogParameter(groups[0], 'in', ptype))
+      generics.append(VerilogParameter(groups[0], 'in', param_ptype))
 
     elif action == 'module_port_start':
       new_mode, net_type, signed, vec_range = groups
-- 
2.43.0


From f93713c6703afdd99f2465539dfd82eb039fa0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 51/64] fix: MLP engines send all-zero result vectors too

The process that drives the engine's output was not sensitive to the output
FIFO becoming empty or non-empty, only to its head changing. A result of all
zeros looks like the empty FIFO's output, so it was not sent, or tvalid
stayed high after the last vector and the FIFO underflowed.
---
 rad-sim/example-designs/mlp/modules/mvm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp/modules/mvm.cpp b/rad-sim/example-designs/mlp/modules/mvm.cpp
index c412915..1c44945 100644
--- a/rad-sim/example-designs/mlp/modules/mvm.cpp
+++ b/rad-sim/example-designs/mlp/modules/mvm.cpp
@@ -173,7 +173,7 @@ mvm::mvm(const sc_module_name &name, unsigned int id_mvm, unsigned int id_layer,
   dm_fifo->rdata(dm_fifo_rdata_signal);
 
   SC_METHOD(Assign);
-  sensitive << rst << ofifo_almost_full_signal << ofifo_rdata_signal
+  sensitive << rst << ofifo_almost_full_signal << ofifo_empty_signal << ofifo_rdata_signal
             << tx_interface.tvalid << tx_interface.tready << rx_interface.tuser
             << ififo_almost_full_signal << reduce_fifo_almost_full_signal
             << result_pipeline[COMPUTE_LATENCY - 1]
-- 
2.43.0


From 190868c664aaf19d58c48dc9d82b99b7dc0e08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:31 +0000
Subject: [PATCH 52/64] fix: HMC memory: a write's completion no longer answers
 an older read of the same address

---
 rad-sim/sim/dram/DRAMsim3/src/hmc.cc | 12 ++++++------
 rad-sim/sim/dram/DRAMsim3/src/hmc.h  |  7 ++++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/hmc.cc b/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
index 5f5c23b..9055f62 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/hmc.cc
@@ -406,7 +406,7 @@ bool HMCMemorySystem::InsertReqToLink(HMCRequest *req, int link) {
         HMCResponse *resp =
             new HMCResponse(req->mem_operand, req->type, link, req->quad);
         resp_lookup_table_.insert(
-            std::pair<uint64_t, HMCResponse *>(resp->resp_id, resp));
+            std::make_pair(std::make_pair(resp->resp_id, req->is_write), resp));
         link_age_counter_[link] = 1;
         // stats_.interarrival_latency.AddValue(clk_ - last_req_clk_);
         last_req_clk_ = clk_;
@@ -547,9 +547,9 @@ void HMCMemorySystem::DRAMClockTick() {
         while (true) {
             auto pair = ctrls_[i]->ReturnDoneTrans(clk_);
             if (pair.second == 1) {  // write
-                VaultCallback(pair.first);
+                VaultCallback(pair.first, true);
             } else if (pair.second == 0) {  // read
-                VaultCallback(pair.first);
+                VaultCallback(pair.first, false);
             } else {
                 break;
             }
@@ -618,13 +618,13 @@ void HMCMemorySystem::InsertReqToDRAM(HMCRequest *req) {
     return;
 }
 
-void HMCMemorySystem::VaultCallback(uint64_t req_id) {
+void HMCMemorySystem::VaultCallback(uint64_t req_id, bool is_write) {
     // we will use hex addr as the req_id and use a multimap to lookup the
     // requests the vaults cannot directly talk to the CPU so this callback will
     // be passed to the vaults and is responsible to put the responses back to
-    // response queues
+    // response queues, reads and writes of one address have their own entries
 
-    auto it = resp_lookup_table_.find(req_id);
+    auto it = resp_lookup_table_.find(std::make_pair(req_id, is_write));
     HMCResponse *resp = it->second;
     // all data from dram received, put packet in xbar and return
     resp_lookup_table_.erase(it);
diff --git a/rad-sim/sim/dram/DRAMsim3/src/hmc.h b/rad-sim/sim/dram/DRAMsim3/src/hmc.h
index f9900c6..9ecd02a 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/hmc.h
+++ b/rad-sim/sim/dram/DRAMsim3/src/hmc.h
@@ -3,6 +3,7 @@
 
 #include <functional>
 #include <map>
+#include <utility>
 #include <vector>
 
 #include "dram_system.h"
@@ -127,7 +128,7 @@ class HMCMemorySystem : public BaseDRAMSystem {
     void DrainRequests();
     void DrainResponses();
     void InsertReqToDRAM(HMCRequest* req);
-    void VaultCallback(uint64_t req_id);
+    void VaultCallback(uint64_t req_id, bool is_write);
     std::vector<int> BuildAgeQueue(std::vector<int>& age_counter);
     void XbarArbitrate();
     inline void IterateNextLink();
@@ -140,8 +141,8 @@ class HMCMemorySystem : public BaseDRAMSystem {
     const int xbar_bandwidth_ = 2;
 
     // had to use a multimap because the controller callback return hex addr
-    // instead of unique id
-    std::multimap<uint64_t, HMCResponse*> resp_lookup_table_;
+    // and direction instead of unique id
+    std::multimap<std::pair<uint64_t, bool>, HMCResponse*> resp_lookup_table_;
     // these are essentially input/output buffers for xbars
     std::vector<std::vector<HMCRequest*>> link_req_queues_;
     std::vector<std::vector<HMCResponse*>> link_resp_queues_;
-- 
2.43.0


From 4926d43a4ab31cafa8b916bfbbc45faf0bfa7187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 53/64] fix: memory controller matches write completions to
 their writes when the memory reorders them (HMC)

---
 rad-sim/sim/dram/mem_controller.cpp | 33 +++++++++++++++++------------
 rad-sim/sim/dram/mem_controller.hpp |  9 +++++---
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index 2818dce..cd9972c 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -260,14 +260,21 @@ void mem_controller::MemReadCallback(uint64_t addr) {
 void mem_controller::MemWriteCallback(uint64_t addr) {
   unsigned int ch_id = ChannelFromAddr(addr);
   assert(!_outstanding_write_requests[ch_id].empty());
-  uint64_t resp_addr = std::get<0>(_outstanding_write_requests[ch_id].front());
-  sc_bv<AXI4_MAX_DATAW> data_word =
-      std::get<1>(_outstanding_write_requests[ch_id].front());
-  bool last = std::get<2>(_outstanding_write_requests[ch_id].front());
-  _outstanding_write_requests[ch_id].pop();
-  if (last)
-    _output_write_responses[ch_id].push(resp_addr);
-  _mem_contents[ch_id][addr] = data_word;
+  // The oldest write to this address that has not completed yet
+  auto &requests = _outstanding_write_requests[ch_id];
+  auto it = requests.begin();
+  while (it != requests.end() &&
+         (std::get<3>(*it) != addr || std::get<4>(*it)))
+    it++;
+  assert(it != requests.end());
+  _mem_contents[ch_id][addr] = std::get<1>(*it);
+  std::get<4>(*it) = true;
+  // Respond to all writes that have completed, in order
+  while (!requests.empty() && std::get<4>(requests.front())) {
+    if (std::get<2>(requests.front()))
+      _output_write_responses[ch_id].push(std::get<0>(requests.front()));
+    requests.pop_front();
+  }
   return;
 }
 
@@ -359,7 +366,7 @@ void mem_controller::Tick() {
     while (!_read_address_queue[ch_id].empty())
       _read_address_queue[ch_id].pop();
     while (!_outstanding_write_requests[ch_id].empty())
-      _outstanding_write_requests[ch_id].pop();
+      _outstanding_write_requests[ch_id].pop_front();
     while (!_outstanding_read_requests[ch_id].empty())
       _outstanding_read_requests[ch_id].pop();
     while (!_output_read_responses[ch_id].empty())
@@ -525,8 +532,8 @@ void mem_controller::MemTick() {
             _dramsim->AddTransaction(write_addr, true);
             _write_data_queue[ch_id].pop();
             _write_address_queue[ch_id].pop();
-            _outstanding_write_requests[ch_id].push(
-                std::make_tuple(resp_addr, write_data, last));
+            _outstanding_write_requests[ch_id].push_back(std::make_tuple(
+                resp_addr, write_data, last, write_addr, false));
           }
         }
         // Adjust outstanding request counters
@@ -550,8 +557,8 @@ void mem_controller::MemTick() {
             _dramsim->AddTransaction(write_addr, true);
             _write_data_queue[ch_id].pop();
             _write_address_queue[ch_id].pop();
-            _outstanding_write_requests[ch_id].push(
-                std::make_tuple(resp_addr, write_data, last));
+            _outstanding_write_requests[ch_id].push_back(std::make_tuple(
+                resp_addr, write_data, last, write_addr, false));
           }
           // Issue read request to DRAMsim
         } else if (_read_address_queue[ch_id].size() > 0) {
diff --git a/rad-sim/sim/dram/mem_controller.hpp b/rad-sim/sim/dram/mem_controller.hpp
index a8f4fd3..e013100 100644
--- a/rad-sim/sim/dram/mem_controller.hpp
+++ b/rad-sim/sim/dram/mem_controller.hpp
@@ -5,6 +5,7 @@
 #include <aximm_interface.hpp>
 #include <bitset>
 #include <cmath>
+#include <deque>
 #include <design_context.hpp>
 #include <functional>
 #include <memory_system.h>
@@ -45,9 +46,11 @@ private:
   std::vector<std::queue<std::tuple<uint64_t, uint64_t, bool>>>
       _read_address_queue;
   // Queue for requests already dispatched to DRAMsim but waiting for responses
-  // (assuming in-order) For each channel, keep a queue of response address (and
-  // data if write request)
-  std::vector<std::queue<std::tuple<uint64_t, sc_bv<AXI4_MAX_DATAW>, bool>>>
+  // For each channel, keep a queue of response address (and if write request,
+  // data, last flag, memory address, and whether the memory has completed it:
+  // writes may complete out of order but are answered in order)
+  std::vector<std::deque<
+      std::tuple<uint64_t, sc_bv<AXI4_MAX_DATAW>, bool, uint64_t, bool>>>
       _outstanding_write_requests;
   std::vector<std::queue<std::tuple<uint64_t, uint64_t, bool>>>
       _outstanding_read_requests;
-- 
2.43.0


From 578161482302682b4ed77a9853dbb44f428e46e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 54/64] fix: DLRM embedding lookup does not present an accepted
 read request again

---
 .../dlrm/modules/embedding_lookup.cpp         | 41 ++++++++++---------
 .../dlrm_two_rad/modules/embedding_lookup.cpp | 41 ++++++++++---------
 2 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
index a57070e..7c1395e 100644
--- a/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm/modules/embedding_lookup.cpp
@@ -115,6 +115,27 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted, before presenting the
+        // next one: an accepted transaction must not be presented again
+        unsigned int next_id = _id_count[ch_id].read();
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          next_id++;
+          _id_count[ch_id].write(next_id);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -133,7 +154,7 @@ void embedding_lookup::Tick() {
           }*/
 
           aximm_req_interface[ch_id].araddr.write(dst_addr);
-          aximm_req_interface[ch_id].arid.write(_id_count[ch_id].read());
+          aximm_req_interface[ch_id].arid.write(next_id);
           aximm_req_interface[ch_id].arlen.write(0);
           aximm_req_interface[ch_id].arburst.write(0);
           aximm_req_interface[ch_id].arsize.write(0);
@@ -147,24 +168,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
diff --git a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
index 4f678fa..c5c1873 100644
--- a/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/modules/embedding_lookup.cpp
@@ -116,6 +116,27 @@ void embedding_lookup::Tick() {
     for (unsigned int ctrl_id = 0; ctrl_id < _num_channels_per_ctrl.size();
          ctrl_id++) {
       for (unsigned int c = 0; c < _num_channels_per_ctrl[ctrl_id]; c++) {
+        // Pop the FIFO if the transaction is accepted, before presenting the
+        // next one: an accepted transaction must not be presented again
+        unsigned int next_id = _id_count[ch_id].read();
+        if (aximm_req_interface[ch_id].arvalid.read() &&
+            aximm_req_interface[ch_id].arready.read()) {
+          /*if (ctrl_id == 0) {
+            std::cout << "ELU sent address "
+                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
+                      << std::endl;
+            cin.get();
+          }*/
+          _lookup_indecies_fifo[ch_id].pop();
+          _base_addresses_fifo[ch_id].pop();
+          next_id++;
+          _id_count[ch_id].write(next_id);
+          /*_debug_sent_request_counter++;
+          std::cout << module_name << ": Sent AR transaction "
+                    << _debug_sent_request_counter << " @ channel " << ch_id
+                    << "!" << std::endl;*/
+        }
+
         if (!_lookup_indecies_fifo[ch_id].empty()) {
           uint64_t lookup_index = _lookup_indecies_fifo[ch_id].front();
           uint64_t table_base_addr = _base_addresses_fifo[ch_id].front();
@@ -134,7 +155,7 @@ void embedding_lookup::Tick() {
           }*/
 
           aximm_req_interface[ch_id].araddr.write(dst_addr);
-          aximm_req_interface[ch_id].arid.write(_id_count[ch_id].read());
+          aximm_req_interface[ch_id].arid.write(next_id);
           aximm_req_interface[ch_id].arlen.write(0);
           aximm_req_interface[ch_id].arburst.write(0);
           aximm_req_interface[ch_id].arsize.write(0);
@@ -148,24 +169,6 @@ void embedding_lookup::Tick() {
           aximm_req_interface[ch_id].wvalid.write(false);
         }
 
-        // Pop the FIFO if the transaction is accepted
-        if (aximm_req_interface[ch_id].arvalid.read() &&
-            aximm_req_interface[ch_id].arready.read()) {
-          /*if (ctrl_id == 0) {
-            std::cout << "ELU sent address "
-                      << aximm_req_interface[ch_id].araddr.read().to_uint64()
-                      << std::endl;
-            cin.get();
-          }*/
-          _lookup_indecies_fifo[ch_id].pop();
-          _base_addresses_fifo[ch_id].pop();
-          _id_count[ch_id].write(_id_count[ch_id].read() + 1);
-          /*_debug_sent_request_counter++;
-          std::cout << module_name << ": Sent AR transaction "
-                    << _debug_sent_request_counter << " @ channel " << ch_id
-                    << "!" << std::endl;*/
-        }
-
         // Receiving transactions from AXI-MM NoC
         if (aximm_req_interface[ch_id].rvalid.read() &&
             aximm_req_interface[ch_id].rready.read()) {
-- 
2.43.0


From 350f7c718a26560dc1a8f16e61b7998f54c11ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:15 +0000
Subject: [PATCH 55/64] fix: DLRM drivers compare every element of an output
 vector

---
 rad-sim/example-designs/dlrm/dlrm_driver.cpp         | 2 +-
 rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/dlrm_driver.cpp b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
diff --git a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
index 1943dee..e6c482f 100644
--- a/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
+++ b/rad-sim/example-designs/dlrm_two_rad/dlrm_driver.cpp
@@ -165,7 +165,7 @@ void dlrm_driver::sink() {
     if (collector_fifo_rdy.read() && dut_output.size() > 0) {
       bool matching = true;
       for (unsigned int e = 0; e < dut_output.size(); e++) {
-        matching = (dut_output[e] == _mlp_outputs[outputs_count][e]);
+        matching &= (dut_output[e] == _mlp_outputs[outputs_count][e]);
       }
       if (!matching) {
         std::cout << "Output " << outputs_count << " on rad " << radsim_design->rad_id << " does not match!\n";
-- 
2.43.0


From 039b4e79b3ef7bb07e2b01d36b564daa3d026ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:23 +0000
Subject: [PATCH 56/64] fix: DLRM compiler accepts 16 lanes: no extra value in
 HBM crossbar steps, padding in whole vectors

---
 rad-sim/example-designs/dlrm/compiler/dlrm.py         | 3 +--
 rad-sim/example-designs/dlrm_two_rad/compiler/dlrm.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/rad-sim/example-designs/dlrm/compiler/dlrm.py b/rad-sim/example-designs/dlrm/compiler/dlrm.py
index 634b95a..2965753 100644
--- a/rad-sim/example-designs/dlrm/compiler/dlrm.py
+++ b/rad-sim/example-designs/dlrm/compiler/dlrm.py
@@ -490,7 +490,6 @@ def generate_custom_feature_interaction_instructions():
                         schedule_step.append(ch + 1)
                         schedule_step.append(i * native_dim)
                         schedule_step.append((i+1) * native_dim - 1)
-                        schedule_step.append(int(i == int(vector_length/native_dim)))
                         if (i == int(vector_length/native_dim) - 1):
                             schedule_step.append(1)
                             schedule.append(schedule_step)
@@ -529,7 +528,7 @@ def generate_custom_feature_interaction_instructions():
     padded_input_dim = int(padded_input_dim * native_dim * num_mvms[0])
     total_vector_bytewidth = padded_input_dim * element_bytewidth
     remaining_bytes = total_vector_bytewidth - total_pushed_bytes
-    assert remaining_bytes % read_bytewidth == 0
+    assert remaining_bytes % (native_dim * element_bytewidth) == 0
     padding_words = int(remaining_bytes / native_dim / element_bytewidth)
     for i in range(padding_words):
         schedule_step.append(0)
diff --git a/rad-sim/example-designs/dlrm_two_rad/compiler/dlrm.py b/rad-sim/example-designs/dlrm_two_rad/compiler/dlrm.py
index 634b95a..2965753 100644
--- a/rad-sim/example-designs/dlrm_two_rad/compiler/dlrm.py
+++ b/rad-sim/example-designs/dlrm_two_rad/compiler/dlrm.py
@@ -490,7 +490,6 @@ def generate_custom_feature_interaction_instructions():
                         schedule_step.append(ch + 1)
                         schedule_step.append(i * native_dim)
                         schedule_step.append((i+1) * native_dim - 1)
-                        schedule_step.append(int(i == int(vector_length/native_dim)))
                         if (i == int(vector_length/native_dim) - 1):
                             schedule_step.append(1)
                             schedule.append(schedule_step)
@@ -529,7 +528,7 @@ def generate_custom_feature_interaction_instructions():
     padded_input_dim = int(padded_input_dim * native_dim * num_mvms[0])
     total_vector_bytewidth = padded_input_dim * element_bytewidth
     remaining_bytes = total_vector_bytewidth - total_pushed_bytes
-    assert remaining_bytes % read_bytewidth == 0
+    assert remaining_bytes % (native_dim * element_bytewidth) == 0
     padding_words = int(remaining_bytes / native_dim / element_bytewidth)
     for i in range(padding_words):
         schedule_step.append(0)
-- 
2.43.0


From 4032d8bf1e8391adaee53d087aed5b87d14b2457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 57/64] fix: Verilog MVM engine: input and reduction FIFOs stop
 accepting before they are full

---
 rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v b/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v
index c9b03a3..fa911f6 100644
--- a/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v
+++ b/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v
@@ -161,7 +161,8 @@ assign tuser_rf_en 			= axis_rx_tuser[74:11];
 // FIFO for input vectors sent to the MVM
 fifo # (
 	.DATAW(DATAW),
-	.DEPTH(FIFOD)
+	.DEPTH(FIFOD),
+	.ALMOST_FULL_DEPTH(FIFOD-4)
 ) input_fifo (
 	.clk(clk),
 	.rst(rst),
@@ -177,7 +178,8 @@ fifo # (
 // FIFO for accumulation vectors sent to the MVM
 fifo # (
 	.DATAW(DATAW),
-	.DEPTH(FIFOD)
+	.DEPTH(FIFOD),
+	.ALMOST_FULL_DEPTH(FIFOD-4)
 ) reduction_fifo (
 	.clk(clk),
 	.rst(rst),
@@ -247,9 +249,9 @@ always @ (*) begin
 	if (axis_rx_tvalid && tuser_op == 0) begin
 		rxtready <= !inst_fifo_full;
 	end else if (axis_rx_tvalid && tuser_op == 1) begin
-		rxtready <= !reduction_fifo_full;
+		rxtready <= !reduction_fifo_almost_full;
 	end else if (axis_rx_tvalid && tuser_op == 2) begin
-		rxtready <= !input_fifo_full;
+		rxtready <= !input_fifo_almost_full;
 	end else if (axis_rx_tvalid && tuser_op == 3) begin
 		rxtready <= 1'b1;
 	end else begin
-- 
2.43.0


From c03ff92aa032865c8a0946116ffdfb3d6d746aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:45 +0000
Subject: [PATCH 58/64] fix: Verilog MVM engine: output FIFO leaves room for
 everything in the datapath

---
 rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v b/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v
index fa911f6..9dbfe3d 100644
--- a/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v
+++ b/rad-sim/example-designs/mlp_int8/modules/rtl/rtl_mvm.v
@@ -394,7 +394,7 @@ end
 fifo # (
 	.DATAW(1 + NODESW + DATAW),
 	.DEPTH(FIFOD),
-	.ALMOST_FULL_DEPTH(FIFOD-13)
+	.ALMOST_FULL_DEPTH(FIFOD-DATAPATH_DELAY-4)
 ) output_data_fifo (
 	.clk(clk),
 	.rst(rst),
-- 
2.43.0


From 4d8673ec015e82fad6361594858202fad5a65653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 59/64] fix: Verilog MVM engine: accumulation uses results
 still on their way to the accumulator memory

---
 .../mlp_int8/modules/rtl/accum.v              | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp_int8/modules/rtl/accum.v b/rad-sim/example-designs/mlp_int8/modules/rtl/accum.v
index 3eabfb7..d04a0e1 100644
--- a/rad-sim/example-designs/mlp_int8/modules/rtl/accum.v
+++ b/rad-sim/example-designs/mlp_int8/modules/rtl/accum.v
@@ -38,6 +38,20 @@ reg r_accum, rr_accum, r_valid, rr_valid, rrr_valid, r_last, rr_last;
 reg [ADDRW-1:0] r_addr, rr_addr;
 reg [DATAW-1:0] r_data, rr_data, r_result;
 
+// Results that have not reached the memory yet when an operation reads it
+reg fwd_valid [0:1];
+reg [ADDRW-1:0] fwd_addr [0:1];
+reg [DATAW-1:0] fwd_data [0:1];
+reg [DATAW-1:0] accum_operand;
+
+// The most recent result of the address, whether in the memory or on its way to it
+always @ (*) begin
+	if (accum_mem_wen && accum_mem_waddr == rr_addr) accum_operand = r_result;
+	else if (fwd_valid[0] && fwd_addr[0] == rr_addr) accum_operand = fwd_data[0];
+	else if (fwd_valid[1] && fwd_addr[1] == rr_addr) accum_operand = fwd_data[1];
+	else accum_operand = accum_mem_rdata;
+end
+
 memory_block # (
 	.DATAW(DATAW),
 	.DEPTH(DEPTH)
@@ -60,6 +74,7 @@ always @ (posedge clk) begin
 		r_last <= 1'b0; rr_last <= 1'b0;
 		accum_mem_wen <= 1'b0;
 		accum_mem_waddr <= 'd0;
+		fwd_valid[0] <= 1'b0; fwd_valid[1] <= 1'b0;
 	end else begin
 		// Pipeline inputs to align with memory output
 		r_accum  <= i_accum;
@@ -75,7 +90,7 @@ always @ (posedge clk) begin
 		
 		// Perform accumulation
 		if (rr_valid && rr_accum) begin
-			r_result <= rr_data + accum_mem_rdata;
+			r_result <= rr_data + accum_operand;
 			accum_mem_wen <= 1'b1;
 		end else if (rr_valid) begin
 			r_result <= rr_data;
@@ -84,6 +99,9 @@ always @ (posedge clk) begin
 			accum_mem_wen <= 1'b0;
 		end
 		accum_mem_waddr <= rr_addr;
+		fwd_valid[0] <= accum_mem_wen; fwd_valid[1] <= fwd_valid[0];
+		fwd_addr[0] <= accum_mem_waddr; fwd_addr[1] <= fwd_addr[0];
+		fwd_data[0] <= r_result; fwd_data[1] <= fwd_data[0];
 		rrr_valid <= rr_last && rr_valid;
 	end
 end
-- 
2.43.0


From 81249833dc6517e185e3fa43fa5e8bcb8f58de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 60/64] fix: mult driver reports a wrong product in the exit
 status

---
 rad-sim/example-designs/mult/mult_driver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/mult/mult_driver.cpp b/rad-sim/example-designs/mult/mult_driver.cpp
index 2ed5dfa..504889c 100644
--- a/rad-sim/example-designs/mult/mult_driver.cpp
+++ b/rad-sim/example-designs/mult/mult_driver.cpp
@@ -64,8 +64,10 @@ void mult_driver::sink() {
   std::cout << "Received " << response.read().to_uint64() << " product from the multiplier!" << std::endl;
   std::cout << "The actual product is " << actual_product << std::endl;
 
-  if (response.read() != actual_product) std::cout << "FAILURE - Output is not matching!" << std::endl;
-  else std::cout << "SUCCESS - Output is matching!" << std::endl;
+  if (response.read() != actual_product) {
+    std::cout << "FAILURE - Output is not matching!" << std::endl;
+    radsim_design->ReportDesignFailure();
+  } else std::cout << "SUCCESS - Output is matching!" << std::endl;
 
   end_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
   std::cout << "Simulation Cycles for Just Mult Portion = " << end_cycle - start_cycle << std::endl;
-- 
2.43.0


From 5ac69120dc69b176e48ce540fd3a545c52da7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 61/64] fix: example systems do not delete an uninitialised
 clock pointer at the end of a run

---
 rad-sim/example-designs/add/add_system.hpp                      | 2 +-
 .../aximm_hello_world/aximm_hello_world_system.hpp              | 2 +-
 rad-sim/example-designs/mlp/mlp_system.hpp                      | 2 +-
 rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp            | 2 +-
 rad-sim/example-designs/mult/mult_system.hpp                    | 2 +-
 rad-sim/example-designs/rtl_add/rtl_add_system.hpp              | 2 +-
 rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp          | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rad-sim/example-designs/add/add_system.hpp b/rad-sim/example-designs/add/add_system.hpp
index ace1ecb..7a79dbf 100644
--- a/rad-sim/example-designs/add/add_system.hpp
+++ b/rad-sim/example-designs/add/add_system.hpp
@@ -17,7 +17,7 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
+  sc_clock *sysclk = nullptr;
   add_driver *driver_inst;
   add_top *dut_inst;
 
diff --git a/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp b/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp
index 774588b..7e05a77 100644
--- a/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp
+++ b/rad-sim/example-designs/aximm_hello_world/aximm_hello_world_system.hpp
@@ -16,7 +16,7 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
+  sc_clock *sysclk = nullptr;
   aximm_hello_world_driver *driver_inst;
   aximm_hello_world_top *dut_inst;
 
diff --git a/rad-sim/example-designs/mlp/mlp_system.hpp b/rad-sim/example-designs/mlp/mlp_system.hpp
index 50be2b0..8c37220 100644
--- a/rad-sim/example-designs/mlp/mlp_system.hpp
+++ b/rad-sim/example-designs/mlp/mlp_system.hpp
@@ -19,7 +19,7 @@ class mlp_system : public RADSimDesignSystem {
 
  public:
   sc_signal<bool> rst_sig;
-  sc_clock* sysclk;
+  sc_clock* sysclk = nullptr;
   mlp_driver* mlp_driver_inst;
   mlp_top* mlp_inst;
 
diff --git a/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp b/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
index 469a4af..8988537 100644
--- a/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
+++ b/rad-sim/example-designs/mlp_int8/mlp_int8_system.hpp
@@ -48,7 +48,7 @@ class mlp_int8_system : public RADSimDesignSystem {
 
  public:
   sc_signal<bool> rst_sig;
-  sc_clock* sysclk;
+  sc_clock* sysclk = nullptr;
   mlp_driver* mlp_driver_inst;
   mlp_top* mlp_inst;
 
diff --git a/rad-sim/example-designs/mult/mult_system.hpp b/rad-sim/example-designs/mult/mult_system.hpp
index f3026b3..3047db1 100644
--- a/rad-sim/example-designs/mult/mult_system.hpp
+++ b/rad-sim/example-designs/mult/mult_system.hpp
@@ -17,7 +17,7 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
+  sc_clock *sysclk = nullptr;
   mult_driver *driver_inst;
   mult_top *dut_inst;
 
diff --git a/rad-sim/example-designs/rtl_add/rtl_add_system.hpp b/rad-sim/example-designs/rtl_add/rtl_add_system.hpp
index 484cf2d..733b1d2 100644
--- a/rad-sim/example-designs/rtl_add/rtl_add_system.hpp
+++ b/rad-sim/example-designs/rtl_add/rtl_add_system.hpp
@@ -16,7 +16,7 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
+  sc_clock *sysclk = nullptr;
   rtl_add_driver *driver_inst;
   rtl_add_top *dut_inst;
 
diff --git a/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp b/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp
index 72dca33..308580b 100644
--- a/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp
+++ b/rad-sim/example-designs/rtl_aximm/rtl_aximm_system.hpp
@@ -16,7 +16,7 @@ private:
 
 public:
   sc_signal<bool> rst_sig;
-  sc_clock *sysclk;
+  sc_clock *sysclk = nullptr;
   rtl_aximm_driver *driver_inst;
   rtl_aximm_top *dut_inst;
 
-- 
2.43.0


From 2978c04f963e88af3226156086321873385ed4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 62/64] fix: cycle number at a clock edge is not one too high
 for periods like 1.4 ns

---
 rad-sim/sim/radsim_utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/radsim_utils.cpp b/rad-sim/sim/radsim_utils.cpp
index 2e492fe..31c6e97 100644
--- a/rad-sim/sim/radsim_utils.cpp
+++ b/rad-sim/sim/radsim_utils.cpp
@@ -1,16 +1,16 @@
 #include <radsim_utils.hpp>
 
 int GetSimulationCycle(double period) {
-  sc_time t = sc_time_stamp();
-  int cycle = (int)ceil(t.value() / period / 1000);
+  // Count in time steps: dividing by a period such as 1.4 ns in floating point
+  // can land just above the cycle number at a clock edge
+  sc_dt::uint64 t = sc_time_stamp().value();
+  sc_dt::uint64 period_steps = sc_time(period, SC_NS).value();
+  int cycle = (int)((t + period_steps - 1) / period_steps);
   return cycle;
 }
 
 int GetSimulationCycle() {
-  double period = radsim_config.GetDoubleKnobShared("sim_driver_period");
-  sc_time t = sc_time_stamp();
-  int cycle = (int)ceil(t.value() / period / 1000);
-  return cycle;
+  return GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
 }
 
 static int current_noc_cycle = 0;
-- 
2.43.0


From 5d11ccab7b8164edbd8bb1fa9f2b54b32e49f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:36 +0000
Subject: [PATCH 63/64] fix: NPU register file output follows the last stage of
 its read address pipeline

The combinational process reads raddr_pipeline[RF_RD_LATENCY - 1] but was
sensitive to stage RF_WR_LATENCY - 1, one cycle early: when the address
stopped changing, the word read last was the one of the previous address.
---
 rad-sim/example-designs/npu/modules/register_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/npu/modules/register_file.cpp b/rad-sim/example-designs/npu/modules/register_file.cpp
index 523b1f9..ecd4c1b 100644
--- a/rad-sim/example-designs/npu/modules/register_file.cpp
+++ b/rad-sim/example-designs/npu/modules/register_file.cpp
@@ -33,7 +33,7 @@ register_file<dtype>::register_file(const sc_module_name& name, unsigned int id,
 
   SC_METHOD(Assign);
   sensitive << wdata_pipeline[RF_WR_LATENCY - 1] << wen_pipeline[RF_WR_LATENCY - 1] << waddr_pipeline[RF_WR_LATENCY - 1]
-            << raddr_pipeline[RF_WR_LATENCY - 1];
+            << raddr_pipeline[RF_RD_LATENCY - 1];
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 }
-- 
2.43.0


From 39ec5d3fcb020fec5166f108e464dfc7b30f020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:17 +0000
Subject: [PATCH 64/64] fix: NPU matrix-vector sectors switch threads only
 between products

When a product left the pipeline while the next one of the same thread was
still on its way to the dot-product engines, the sector switched to another
thread, whose vector replaced the one in use; and it could switch in the very
cycle in which the active thread started its next product.
---
 rad-sim/example-designs/npu/modules/mvu_sector.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rad-sim/example-designs/npu/modules/mvu_sector.cpp b/rad-sim/example-designs/npu/modules/mvu_sector.cpp
index 1a8815d..9e44d64 100644
--- a/rad-sim/example-designs/npu/modules/mvu_sector.cpp
+++ b/rad-sim/example-designs/npu/modules/mvu_sector.cpp
@@ -382,12 +382,20 @@ void mvu_sector::Tick() {
     for (unsigned int thread_id = 0; thread_id < THREADS; thread_id++) {
       ofifo_wen_val = ofifo_wen_val || ofifo_wen_signal[thread_id].read();
     }
-    if (ofifo_wen_val && inst_pipeline[SECTOR_INST_PIPELINE - 2].read().last_uop &&
+    // The vector registers of the dot-product engines are shared by the threads: do not switch while a later uop of the
+    // active thread is still on its way to them
+    bool uop_in_flight = false;
+    for (unsigned int stage_id = 0; stage_id < SECTOR_INST_TO_DPES_PIPELINE; stage_id++)
+      uop_in_flight = uop_in_flight || inst_valid_pipeline[stage_id].read();
+    if (ofifo_wen_val && inst_pipeline[SECTOR_INST_PIPELINE - 2].read().last_uop && !uop_in_flight &&
         (inst_fifo_empty[thread_id].read() || (current_tag[thread_id] < inst_fifo_rdata[thread_id].read().tag))) {
       thread_locked.write(false);
     }
 
-    if (!thread_locked.read()) {
+    if (!thread_locked.read() && inst_fifo_ren[thread_id].read()) {
+      // The active thread has started its next instruction in the meantime
+      thread_locked.write(true);
+    } else if (!thread_locked.read()) {
       for (unsigned int thread_id = 0; thread_id < THREADS; thread_id++) {
         unsigned int nxt_thread_id = thread_order.front();
         thread_order.push(nxt_thread_id);
-- 
2.43.0

