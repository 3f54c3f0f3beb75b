From 6ca3d7d65e5c5cc9761bc71e5aa72c1d1a255a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:28 +0000
Subject: [PATCH 01/48] fix: FastCap2 matrix parser honours the unit prefix and
 padded conductor names

The unit printed by FastCap2 (e.g. picofarads) was parsed but never applied, and
rows whose conductor name is padded with more than one space lost the name/index
alignment (the index became the first matrix element).
---
 klayout_pex/fastcap/fastcap_runner.py | 28 ++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..72e3647 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -103,6 +103,21 @@ def run_fastcap(exe_path: str,
                         f"see log file: {log_path}")
 
 
+# FastCap2 chooses the unit prefix according to the magnitude of the matrix elements
+FASTCAP_UNITS: Dict[str, float] = {
+    'zeptofarads': 1e-21,
+    'attofarads': 1e-18,
+    'femtofarads': 1e-15,
+    'picofarads': 1e-12,
+    'nanofarads': 1e-9,
+    'microfarads': 1e-6,
+    'millifarads': 1e-3,
+    'farads': 1.0,
+    'kilofarads': 1e3,
+    'megafarads': 1e6,
+}
+
+
 # CAPACITANCE MATRIX, picofarads
 #                     1          2          3          4
 # $1%GROUP2 1       7850      -7277      -2115      54.97
@@ -121,6 +136,9 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                unit = FASTCAP_UNITS.get(unit_str, None)
+                if unit is None:
+                    raise Exception(f"Unknown capacitor unit '{unit_str}'")
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -129,13 +147,13 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
-                    if cells[1] != str(i):
-                        warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
+                    cells = line.split()  # NOTE: names are padded, there may be multiple spaces before the index
+                    row_index = idx - 1 - i
+                    if cells[1] != str(row_index):
+                        warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell) * unit / 1e6 for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From 7f240835bdd58f5adfead2dc68ed05476b303ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 02/48] fix: netlist expanders do not remove devices from the
 circuit they are iterating over

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 klayout_pex/rcx25/netlist_expander.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..0bcddd2 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,7 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # NOTE: removal invalidates the iterator
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..163207b 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # NOTE: removal invalidates the iterator
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From a0216441a796626884a7fe5eb80cf640f77d4fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 03/48] fix: RCX25 netlist expander writes capacitances in
 farad

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 163207b..53559c6 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From cb12bc2e9391171637ce34052f3d578e7b21ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 04/48] fix: netlist expanders reuse existing VSUBS/FC_GND nets
 instead of shadowing them

---
 klayout_pex/klayout/netlist_expander.py | 4 ++--
 klayout_pex/rcx25/netlist_expander.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 0bcddd2..8836543 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -56,8 +56,8 @@ class NetlistExpander:
         cap.description = "Extracted by kpex/FasterCap PEX"
         expanded_netlist.add(cap)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        fc_gnd_net = top_circuit.net_by_name('FC_GND') or top_circuit.create_net('FC_GND')  # create GROUND net
+        vsubs_net = top_circuit.net_by_name("VSUBS") or top_circuit.create_net("VSUBS")
         nets: List[kdb.Net] = []
 
         # build table: name -> net
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 53559c6..86c20ac 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -80,8 +80,8 @@ class RCX25NetlistExpander:
         res.description = "Extracted by KPEX/2.5D"
         expanded_netlist.add(res)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        fc_gnd_net = top_circuit.net_by_name('FC_GND') or top_circuit.create_net('FC_GND')  # create GROUND net
+        vsubs_net = top_circuit.net_by_name("VSUBS") or top_circuit.create_net("VSUBS")
 
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
-- 
2.43.0


From 3ea0ba2f7fea67b57e41fe8b41b1ffddfa9b3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 05/48] fix: netlist CSV names nets without a name by their
 expanded name

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From 75066b2b1c7576805af6932cb990c764790dfca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:03 +0000
Subject: [PATCH 06/48] fix: overlap extraction goes on after a layer pair
 without overlap capacitance

---
 klayout_pex/rcx25/c/overlap_extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..c93d8ec 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -118,11 +118,13 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        shielded_region.insert(polygon_above)
+                        continue
 
                     top_region = kdb.Region(polygon_above)
 
-- 
2.43.0


From f00ffd2175cdbf2177db1082ef3660914a9573bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 07/48] fix: overlap extraction lets shapes of the same net
 shield what is above them

---
 klayout_pex/rcx25/c/overlap_extractor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index c93d8ec..4974b2d 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -111,6 +111,7 @@ class OverlapExtractor:
                     net_top = polygon_above.property('net')
 
                     if net_top == net_bot:
+                        shielded_region.insert(polygon_above)
                         continue
 
                     top_layer_name = self.layer_names[other_layer_index]
-- 
2.43.0


From fbe3de9a2365c40685858aa60118871b1503eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 08/48] fix: sidewall/fringe extraction skips layer pairs
 without specification instead of crashing

---
 .../rcx25/c/sidewall_and_fringe_extractor.py  | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 89d238c..817a508 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -265,7 +265,10 @@ class SidewallAndFringeExtractor:
             if net1 == net2:
                 return
 
-            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name[layer_name]
+            sidewall_cap_spec = self.tech_info.sidewall_cap_by_layer_name.get(layer_name, None)
+            if not sidewall_cap_spec:
+                warning(f"No sidewall cap specified for layer {layer_name}")
+                return
 
             # TODO!
 
@@ -377,14 +380,17 @@ class SidewallAndFringeExtractor:
             ]
 
             # NOTE: overlap_cap_by_layer_names is top/bot (dict is not symmetric)
-            overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[inside_layer_name].get(outside_layer_name,
-                                                                                                None)
+            overlap_cap_specs = self.tech_info.overlap_cap_by_layer_names
+            overlap_cap_spec = overlap_cap_specs.get(inside_layer_name, {}).get(outside_layer_name, None)
             if not overlap_cap_spec:
-                overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[outside_layer_name][inside_layer_name]
+                overlap_cap_spec = overlap_cap_specs.get(outside_layer_name, {}).get(inside_layer_name, None)
+
+            sideoverlap_cap_specs = self.tech_info.side_overlap_cap_by_layer_names
+            sideoverlap_cap_spec = sideoverlap_cap_specs.get(inside_layer_name, {}).get(outside_layer_name, None)
 
-            substrate_cap_spec = self.tech_info.substrate_cap_by_layer_name[inside_layer_name]
-            sideoverlap_cap_spec = self.tech_info.side_overlap_cap_by_layer_names[inside_layer_name][
-                outside_layer_name]
+            if not overlap_cap_spec or not sideoverlap_cap_spec:
+                warning(f"No side overlap cap specified for layers {inside_layer_name}-{outside_layer_name}")
+                return
 
             polygons_by_net: Dict[NetName, List[kdb.PolygonWithProperties]] = defaultdict(list)
 
-- 
2.43.0


From 46010dd4c5d2aaee54e12e70449e859f37d326f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 09/48] fix: fringe extraction skips only the degenerate
 polygon, not all further ones

---
 klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 817a508..a9a6998 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -439,7 +439,7 @@ class SidewallAndFringeExtractor:
                         raise
 
                     if distance_far == distance_near:
-                        return
+                        continue
 
                     edge_interval_length = edge_interval[1] - edge_interval[0]
                     edge_interval_length_um = edge_interval_length * self.dbu
-- 
2.43.0


From 3154f9bf72fb9eadf89719da5c90eb715b4b05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:10 +0000
Subject: [PATCH 10/48] fix: side overlap table accepts layers without
 substrate capacitance

---
 klayout_pex/tech_info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..92d5bc2 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -395,7 +395,10 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                if k1 not in d:
+                    d[k1] = {k2: v}
+                else:
+                    d[k1][k2] = v
 
         return d
 
-- 
2.43.0


From 2fe641caada34896f19fe39e7b1d5b9cedeaa3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 11/48] fix: resistance extraction copes with vias that end on
 a layer without shapes

---
 klayout_pex/rcx25/extraction_reporter.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py       | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_reporter.py b/klayout_pex/rcx25/extraction_reporter.py
index ca9081f..17176eb 100644
--- a/klayout_pex/rcx25/extraction_reporter.py
+++ b/klayout_pex/rcx25/extraction_reporter.py
@@ -329,8 +329,8 @@ class ExtractionReporter:
                 f"{round(c.resistance, 3)} mΩ/µm^2"
             )
         for v in tech.vias:
-            bot = layer_by_id[v.bottom_conductor.id].canonical_layer_name
-            top = layer_by_id[v.top_conductor.id].canonical_layer_name
+            bot = layer_by_id.get(v.bottom_conductor.id, v.bottom_conductor).canonical_layer_name
+            top = layer_by_id.get(v.top_conductor.id, v.top_conductor).canonical_layer_name
             self.report.create_category(
                 cat_vias,
                 f"{v.layer.id}: {v.layer.canonical_layer_name} (LVS {v.layer.lvs_layer_name}, "
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..9309dad 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -174,7 +174,9 @@ class RExtractor:
                             via.layer.lvs_layer_name = source_layer.lvs_layer_name
 
                             via.bottom_conductor.id = self.pex_context.annotated_layout.layer(*bot_gds_pair)
+                            via.bottom_conductor.canonical_layer_name = contact.layer_below
                             via.top_conductor.id = self.pex_context.annotated_layout.layer(*top_gds_pair)
+                            via.top_conductor.canonical_layer_name = contact.metal_above
 
                             via.resistance = self.pex_context.tech.milliohm_by_cnt_to_ohm_by_square_for_contact(
                                 contact=contact,
@@ -204,7 +206,9 @@ class RExtractor:
                             via.layer.lvs_layer_name = source_layer.lvs_layer_name
 
                             via.bottom_conductor.id = self.pex_context.annotated_layout.layer(*bot_gds_pair)
+                            via.bottom_conductor.canonical_layer_name = bot
                             via.top_conductor.id = self.pex_context.annotated_layout.layer(*top_gds_pair)
+                            via.top_conductor.canonical_layer_name = top
 
                             contact = self.pex_context.tech.contact_by_contact_lvs_layer_name[
                                 source_layer.lvs_layer_name]
@@ -294,6 +298,9 @@ class RExtractor:
 
         for v in rex_request.tech.vias:
             layer_names[v.layer.id] = v.layer.canonical_layer_name
+            # NOTE: a via can end on a layer without any shapes, which is not a conductor of the tech
+            for end in (v.bottom_conductor, v.top_conductor):
+                layer_names.setdefault(end.id, end.canonical_layer_name)
 
         for net_extraction_request in rex_request.net_extraction_requests:
 
-- 
2.43.0


From e1e4f1e63af6e1f31a3fe0e8e30f06b8cdbb4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:25 +0000
Subject: [PATCH 12/48] fix: shapes, terminals and resistance requests of a net
 without a name are found by its expanded name

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..86cf647 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,7 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -397,7 +397,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 9309dad..345e65a 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -271,7 +271,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From 973fb676433429400e65c2962a12ba69238cc763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 13/48] fix: device terminals that are unconnected or lie on
 blackboxed layers do not crash the extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 86cf647..ddd4fa1 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -375,10 +375,11 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}) "
                             f"is not connected to any net")
                     terminal = d.terminals.add()
-                    terminal.id = td.id()
+                    terminal.device_id = d.id
+                    terminal.terminal_id = td.id()
                     terminal.name = td.name
                     terminal.net_name = ''  # TODO
                     continue
@@ -400,6 +401,8 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
+                        if idx not in self.layer_index_map:
+                            continue  # NOTE: layers of blackboxed devices are not extracted
                         lyr_idx = self.layer_index_map[idx]
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
 
-- 
2.43.0


From 24cbe12311d65c644bb88e2dbf30762d0c9fc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:34 +0000
Subject: [PATCH 14/48] fix: internal nodes of resistor networks of different
 nets do not share a net name

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 345e65a..777018c 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -372,7 +372,8 @@ class RExtractor:
                         r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                         r_node.location.box.net = r_node.net_name
                     case _:
-                        r_node.net_name = r_node.node_name
+                        # NOTE: node names are only unique within their network
+                        r_node.net_name = f"{result_network.net_name}.{r_node.node_name}"
                         r_node.location.box.net = r_node.net_name
 
                 node_by_node_id[r_node.node_id] = r_node
-- 
2.43.0


From 70052a0ab69ddb2f7f4a582f874ec1eb5c99f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:53 +0000
Subject: [PATCH 15/48] fix: resistance extraction ignores layers without a
 layer resistance instead of crashing

---
 klayout_pex/rcx25/r/r_extractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 777018c..458aaea 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -131,6 +131,9 @@ class RExtractor:
                             continue
 
                         layer_resistance = tech.layer_resistance_by_layer_name.get(canonical_layer_name, None)
+                        if layer_resistance is None:
+                            warning(f"ignoring layer {canonical_layer_name}, no layer resistance found in tech info")
+                            continue
                         for source_layer in li.source_layers:
                             cond = rex_tech.conductors.add()
 
-- 
2.43.0


From 685002b997862f8d2dfd53851616c51f9f879ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 16/48] fix: resistance extraction does not add an empty via
 for a via layer without bottom/top layers

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 458aaea..519f1c8 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -193,13 +193,14 @@ class RExtractor:
                             warning(f"ignoring layer {canonical_layer_name}, no via resistance found in tech info")
                             continue
                         for source_layer in li.source_layers:
-                            via = rex_tech.vias.add()
                             bot_top = tech.bottom_and_top_layer_name_by_via_computed_layer_name.get(
                                 source_layer.lvs_layer_name, None)
                             if bot_top is None:
                                 warning(f"ignoring layer {canonical_layer_name} (LVS {source_layer.lvs_layer_name}), no bottom/top layers found in tech info")
                                 continue
 
+                            via = rex_tech.vias.add()
+
                             (bot, top) = bot_top
                             bot_gds_pair = tech.gds_pair(bot)
                             top_gds_pair = tech.gds_pair(top)
-- 
2.43.0


From dbb920ac5fb914d8786f83b7345d3f51d52c6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:33 +0000
Subject: [PATCH 17/48] fix: holes of polygons survive the conversion to
 protobuf

---
 klayout_pex/klayout/shapes_pb2_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..1622fde 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,7 +68,8 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
-        for p_kly in polygon_kly.each_point_hull():
+        # NOTE: the message has no holes, so they are joined with the hull
+        for p_kly in polygon_kly.resolved_holes().each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
     def klayout_region_to_pb(self,
-- 
2.43.0


From 4075152202a63a90a664bc09d68b1b0c640e3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:23 +0000
Subject: [PATCH 18/48] fix: FasterCap model with a single conductor and no
 dielectric lost its side walls

---
 klayout_pex/fastercap/fastercap_model_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..473a973 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -459,7 +459,7 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From a40e3d9ff3d45c088904b86dcc9f9ff5c4c85aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 19/48] fix: FasterCap model: overlapping sheets of one net or
 material are counted one by one

---
 .../fastercap/fastercap_model_generator.py    | 83 +++++++++++--------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 473a973..6c2673a 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -364,8 +364,8 @@ class FasterCapModelGenerator:
 
         self.z: Optional[float] = None
         self.zz: Optional[float] = None
-        self.layers_in: Dict[str, kdb.Region] = {}
-        self.layers_out: Dict[str, kdb.Region] = {}
+        self.layers_in: Dict[str, List[kdb.Region]] = {}
+        self.layers_out: Dict[str, List[kdb.Region]] = {}
         self.state: Dict[str, kdb.Region] = {}
         self.current: Dict[str, List[kdb.Region]] = {}
         self.diel_data: Dict[HDielKey, List[Triangle]] = {}
@@ -379,21 +379,27 @@ class FasterCapModelGenerator:
 
     def add_in(self, name: str, layer: kdb.Region):
         debug(f"add_in: {name} -> {layer}")
+        # NOTE: sheets are kept separate, as each of them counts in _merge_events
         if name not in self.layers_in:
-            # NOTE: Calling kdb.Region([]) with the empty list enforces, that a flat layer is created.
-            #       The following "+=" packs the polynomials into this flat layer and
-            #       does not copy the hierarchical layer from the LayoutToNetlist database.
-            self.layers_in[name] = kdb.Region([])
-        self.layers_in[name] += layer
+            self.layers_in[name] = []
+        # NOTE: Calling kdb.Region([]) with the empty list enforces, that a flat layer is created.
+        #       The following "+=" packs the polynomials into this flat layer and
+        #       does not copy the hierarchical layer from the LayoutToNetlist database.
+        sheet = kdb.Region([])
+        sheet += layer
+        self.layers_in[name].append(sheet)
 
     def add_out(self, name: str, layer: kdb.Region):
         debug(f"add_out: {name} -> {layer}")
+        # NOTE: sheets are kept separate, as each of them counts in _merge_events
         if name not in self.layers_out:
-            # NOTE: Calling kdb.Region([]) with the empty list enforces, that a flat layer is created.
-            #       The following "+=" packs the polynomials into this flat layer and
-            #       does not copy the hierarchical layer from the LayoutToNetlist database.
-            self.layers_out[name] = kdb.Region([])
-        self.layers_out[name] += layer
+            self.layers_out[name] = []
+        # NOTE: Calling kdb.Region([]) with the empty list enforces, that a flat layer is created.
+        #       The following "+=" packs the polynomials into this flat layer and
+        #       does not copy the hierarchical layer from the LayoutToNetlist database.
+        sheet = kdb.Region([])
+        sheet += layer
+        self.layers_out[name].append(sheet)
 
     def finish_z(self):
         debug(f"Finishing layer z={self.z}")
@@ -415,8 +421,8 @@ class FasterCapModelGenerator:
                     self.current[mk] = []
                 current_before = self.current[mk][0].dup() if len(self.current[mk]) >= 1 else kdb.Region()
                 lin, lout, current = self._merge_events(pyra=self.current[mk],
-                                                        lin=self.layers_in.get(mk, None),
-                                                        lout=self.layers_out.get(mk, None))
+                                                        lin=self.layers_in.get(mk, []),
+                                                        lout=self.layers_out.get(mk, []))
                 debug(f"Merged events & status for {mk}:")
                 debug(f"  in = {lin}")
                 debug(f"  out = {lout}")
@@ -994,33 +1000,38 @@ class FasterCapModelGenerator:
             f.write("endsolid stl\n")
 
     @staticmethod
-    def _merge_events(pyra: List[Optional[kdb.Region]],
-                      lin: Optional[kdb.Region],
-                      lout: Optional[kdb.Region]) -> Tuple[kdb.Region, kdb.Region, kdb.Region]:
-        lin = lin.dup() if lin else kdb.Region()
-        lout = lout.dup() if lout else kdb.Region()
+    def _merge_events(pyra: List[kdb.Region],
+                      lin: List[kdb.Region],
+                      lout: List[kdb.Region]) -> Tuple[kdb.Region, kdb.Region, kdb.Region]:
         past = pyra[0].dup() if len(pyra) >= 1 else kdb.Region()
 
-        for i in range(0, len(pyra)):
-            ii = len(pyra) - i
-            added: kdb.Region = lin & pyra[ii - 1]
-            if not added.is_empty():
-                if ii >= len(pyra):
-                    pyra.append(kdb.Region())
-                    assert len(pyra) == ii + 1
-                pyra[ii] += added
-                lin -= added
+        # NOTE: pyra[i] is where more than i sheets are present
+
+        for sheet in lin:
+            sheet = sheet.dup()
+            for ii in range(len(pyra), 0, -1):
+                added: kdb.Region = sheet & pyra[ii - 1]
+                if not added.is_empty():
+                    if ii >= len(pyra):
+                        pyra.append(kdb.Region())
+                        assert len(pyra) == ii + 1
+                    pyra[ii] += added
+                    sheet -= added
+
+            if len(pyra) == 0:
+                pyra.append(kdb.Region())
+            pyra[0] += sheet
+
+        for sheet in lout:
+            sheet = sheet.dup()
+            for ii in range(len(pyra), 0, -1):
+                removed: kdb.Region = sheet & pyra[ii - 1]
+                if not removed.is_empty():
+                    pyra[ii - 1] -= removed
+                    sheet -= removed
 
         if len(pyra) == 0:
             pyra.append(kdb.Region())
-        pyra[0] += lin
-
-        for i in range(0, len(pyra)):
-            ii = len(pyra) - i
-            removed: kdb.Region = lout & pyra[ii - 1]
-            if not removed.is_empty():
-                pyra[ii - 1] -= removed
-                lout -= removed
 
         # compute merged events
         lin = pyra[0] - past
-- 
2.43.0


From e7553a066ff87d2c64c33a8bf2e57e07ce845e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:38 +0000
Subject: [PATCH 20/48] fix: FasterCap model: no interface of a dielectric that
 stays hidden behind others

---
 klayout_pex/fastercap/fastercap_model_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 6c2673a..2c5307c 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -441,6 +441,11 @@ class FasterCapModelGenerator:
                 lin -= lout_org
                 lout -= lin_org
 
+                # where one of higher priority is replaced by another of higher priority, nothing happens here
+                lin_and_lout = lin & lout
+                lin -= lin_and_lout
+                lout -= lin_and_lout
+
                 # tracks the legalized horizontal cuts
                 self.state[mk] += lin
                 self.state[mk] -= lout
-- 
2.43.0


From 3291317547f2dc947a52bcf6c230ec77d0942987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 21/48] fix: FasterCap files of nets whose name has a slash or
 is long in bytes could not be written

---
 klayout_pex/fastercap/fastercap_model_generator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 2c5307c..f1fc07b 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -811,13 +811,16 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
+                # NOTE: a net name can contain characters that are not allowed in a file name,
+                #       file names are limited in bytes
+                fn_nn = nn.replace('/', '_').encode('utf-8')
+                fn = f"{prefix}{file_num}_outside={outside}_net={fn_nn.decode('utf-8')}.geo"
+                if max_filename_length is not None and len(fn.encode('utf-8')) > max_filename_length:
                     warning(f"Unusual long net name detected: {nn}")
                     d = hashlib.md5(nn.encode('utf-8')).digest()
                     h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
+                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo".encode('utf-8'))
+                    short_nn = fn_nn[0: (max_filename_length - remaining_len - len(h) - 1)].decode('utf-8', 'ignore') + f"_{h}"
                     fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
-- 
2.43.0


From ca935cdd0ea96ac116f54b1b456888f9edc57dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:44 +0000
Subject: [PATCH 22/48] fix: dielectric filter matches names regardless of
 case, is_included agrees with filter

---
 klayout_pex/util/multiple_choice.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..0c0f1c0 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -58,12 +58,10 @@ class MultipleChoicePattern:
 
     def filter(self, choices: List[str]) -> List[str]:
         if self.has_all:
-            return [c for c in choices if c not in self.excluded]
-        return [c for c in choices if c in self.included]
+            return [c for c in choices if c.lower() not in self.excluded]
+        return [c for c in choices if c.lower() in self.included]
 
     def is_included(self, choice: str) -> bool:
-        if self.has_none:
-            return choice in self.included
         if self.has_all:
-            return choice not in self.excluded
-        return False
+            return choice.lower() not in self.excluded
+        return choice.lower() in self.included
-- 
2.43.0


From 42576165a947165d7ecae6244e8ddfee5ba9654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 23/48] fix: sky130A: met1 to met5 label layers have the names
 of the LVS deck

They were registered under the names of the pin layers, so that a look-up of
a pin layer by name found the label layer.
---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..a14f23f 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From 979df598c8e5ae6cd251f2dc2bee04d1d1564e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 24/48] fix: sky130A: via1_con comes from the drawn layer via

There is no drawn layer via1, so the resistance of via was never found for it.
---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index a14f23f..6832b67 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -94,7 +94,7 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
     addComputedLayer(tech, CONT,    KREG, "licon_psd_con",  66, 4402,  "licon1", "Computed layer for contact from psdm to li1");
     addComputedLayer(tech, CONT,    KREG, "licon_poly_con", 66, 4403,  "licon1", "Computed layer for contact from poly to li1");
     addComputedLayer(tech, VIA,     KREG, "mcon_con",  67, 44,  "mcon",       "Computed layer for contact between li1 and met1");
-    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via1",       "Computed layer for contact between met1 and met2");
+    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via",        "Computed layer for contact between met1 and met2");
     addComputedLayer(tech, VIA,     KREG, "via2_con",  69, 44,  "via2",       "Computed layer for contact between met2 and met3");
     addComputedLayer(tech, VIA,     KREG, "via3_ncap", 70, 144, "via3",       "Computed layer for via3 (no MIM cap)");
     addComputedLayer(tech, VIA,     KREG, "via4_ncap", 71, 144, "via4",       "Computed layer for via4 (no MIM cap)");
-- 
2.43.0


From 954be2cfeb03c1a65aca815ccf576107ae133f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 25/48] fix: sky130A: vias above the MiM capacitors end at the
 metal above them

The thickness of the capacitor dielectric was not taken off, the vias reached
20 nm into met4 and met5.
---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 6832b67..2e20a87 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -297,9 +297,9 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     setContact(via,        "via1_con",       "met1",      "met2",      0.27,                    0.15,    0.17,  0.055);
     setContact(via2,       "via2_con",       "met2",      "met3",      0.42,                    0.20,    0.20,  0.04);
     setContact(via3_ncap,  "via3_ncap",      "met3",      "met4",      0.39,                    0.20,    0.20,  0.06);
-    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.29,                    0.20,    0.20,  0.06);
+    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.39 - capm_thickness - capild_thickness,  0.20,    0.20,  0.06);
     setContact(via4_ncap,  "via4_ncap",      "met4",      "met5",      0.505,                   0.80,    0.80,  0.19);
-    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - 0.1,             0.80,    0.80,  0.19);
+    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - capm_thickness - capild_thickness, 0.80,    0.80,  0.19);
 }
 
 void buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {
-- 
2.43.0


From 778abeceae41ab1126049abf343445a8e9d27f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:54 +0000
Subject: [PATCH 26/48] fix: run FastCap2 in the directory of the lst file
 without changing kpex's own working directory

---
 klayout_pex/fastcap/fastcap_runner.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 72e3647..c483627 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -46,15 +46,16 @@ def run_fastcap(exe_path: str,
                 partitioning_depth: str = 'auto',
                 permittivity_factor: float = 1.0,
                 iterative_tolerance: float = 0.01):
-    work_dir = os.path.dirname(lst_file_path)
+    work_dir = os.path.dirname(os.path.abspath(lst_file_path))
 
-    # we have to chdir into the directory containing the lst file,
+    # FastCap2 has to run in the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
     log_path = os.path.abspath(log_path)
     lst_file_path = os.path.basename(lst_file_path)
+    if os.path.dirname(exe_path):  # otherwise it is looked up in PATH
+        exe_path = os.path.abspath(exe_path)
 
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
+    info(f"FastCap2 working directory is {work_dir}")
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -78,6 +79,7 @@ def run_fastcap(exe_path: str,
     start = time.time()
 
     proc = subprocess.Popen(args,
+                            cwd=work_dir,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From a7b594513a09429be32360ee9ea9f20bd894c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 27/48] fix: a cache hit reads the cached LVSDB instead of
 whatever an earlier run left in the output directory

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..fab24d3 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -834,7 +834,7 @@ class KpexCLI:
                             os.makedirs(cache_dir_path, exist_ok=True)
                         shutil.copy(lvsdb_path, lvsdb_cache_path)
 
-                lvsdb.read(lvsdb_path)
+                lvsdb.read(lvsdb_path if lvs_needed else lvsdb_cache_path)
         return lvsdb
 
     def main(self, argv: List[str]):
-- 
2.43.0


From b5ce1bb60fa7c0178ee69e42d54522ca2c8c6b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 28/48] fix: when LVS fails, the LVSDB of an earlier run is
 neither used nor put into the cache

---
 klayout_pex/kpex_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index fab24d3..33f1463 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -820,6 +820,8 @@ class KpexCLI:
                         lvs_needed = False
 
                 if lvs_needed:
+                    if os.path.exists(lvsdb_path):  # never mistake the result of an earlier run for this one's
+                        os.remove(lvsdb_path)
                     lvs_runner = LVSRunner()
                     lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
                                                lvs_script=args.lvs_script_path,
-- 
2.43.0


From 808c3892dee659278787dfba6c78194395fd85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 29/48] fix: an unknown --cell is reported instead of crashing

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 33f1463..18b48d8 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -387,7 +387,7 @@ class KpexCLI:
                     is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
                     if is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
-                    else:  # there are other cells => extract the top cell to a tmp layout
+                    elif found_cell:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
                         args.output_dir_path = os.path.join(args.output_dir_base_path, run_dir_id)
                         os.makedirs(args.output_dir_path, exist_ok=True)
-- 
2.43.0


From ae0865318640b231468428b6cf1532d06d9485c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:10 +0000
Subject: [PATCH 30/48] fix: the reason why --diel can't be parsed is logged

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 18b48d8..81752e5 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -463,7 +463,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From 8f9b1de90d7eaa59e247117ecc3af626998a5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 31/48] fix: boolean options accept 1 and 0 as intended

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From d879d265b4a5b2f8064ed98a03b07aed767fa66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:29 +0000
Subject: [PATCH 32/48] fix: PDKPATH without PDK means no default magicrc
 instead of a crash of every command

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 81752e5..6e64686 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -253,7 +253,7 @@ class KpexCLI:
 
         PDKPATH = os.environ.get('PDKPATH', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
+            None if PDKPATH is None or 'PDK' not in os.environ \
             else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
-- 
2.43.0


From ddce40de0e1723438c04cc2fe1dce70f089c5bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:56 +0000
Subject: [PATCH 33/48] fix: netlist JSON lost all but one instance of a
 subcircuit

---
 klayout_pex/netlistsvg/netlist_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..24a3211 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,8 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            # NOTE: a circuit can be instantiated several times
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From 8f067df68ad8b27c6018f45543490572f2762d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:07 +0000
Subject: [PATCH 34/48] fix: netlist svg ignored the --cell argument

---
 klayout_pex/netlist/netlist_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..1a6af5b 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -148,6 +148,11 @@ class NetlistCLI:
         rule('netlistsvg Execution')
 
         top_circuits = netlist.top_circuits()
+        if args.cell_name is not None:
+            top_circuits = [netlist.circuit_by_name(args.cell_name)]
+            if top_circuits[0] is None:
+                error(f"Cell {args.cell_name} not found in SPICE netlist")
+                sys.exit(3)
         top_circuit_names = [c.name for c in top_circuits]
         n_circuits = len(top_circuit_names)
 
-- 
2.43.0


From 96d9415c73c611f4959f958e3730dbad5418af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:33 +0000
Subject: [PATCH 35/48] fix: MAGIC nodes and resistors with unusual names or
 values were missing from the report

---
 klayout_pex/magic/magic_ext_data_structures.py |  2 +-
 klayout_pex/magic/magic_ext_file_parser.py     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..8429551 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -48,7 +48,7 @@ class Port:
 class Node:
     net: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
     layer: str
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..3fcf8bd 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -90,7 +90,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                r'^port "(?P<net>[^"]+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,18 +101,18 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?[\d.]+(?:e[-+]?\d+)?) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
                                   int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  fin_c=float(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^device (?P<type>\w+) (?P<model>\w+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
+                r'^device (?P<type>\w+) (?P<model>\S+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) .*$',
                 line.strip())
             if m:
                 t = m.group('type')
@@ -133,7 +133,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
@@ -143,7 +143,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>-?[\d.]+(?:e[-+]?\d+)?)$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From 349ffd486605aab42a4bf421cab6f2bb58e772d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:33 +0000
Subject: [PATCH 36/48] fix: default report path of the MAGIC log analyzer

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..92ece0b 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -148,7 +148,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 158bae7e4f3da92342c3b332acecd3972f72637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:09 +0000
Subject: [PATCH 37/48] fix: skinny triangles were cut at the wrong corner

---
 klayout_pex/rcx25/r/resistor_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/r/resistor_network.py b/klayout_pex/rcx25/r/resistor_network.py
index 5371083..b912bba 100644
--- a/klayout_pex/rcx25/r/resistor_network.py
+++ b/klayout_pex/rcx25/r/resistor_network.py
@@ -67,7 +67,7 @@ class ResistorNetwork:
         self.node_names = {}
 
     @staticmethod
-    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[bool]:
+    def is_skinny_tri(pts: list[kdb.Point]) -> Optional[int]:
         for i in range(0, 3):
             pm1 = pts[i]
             p0 = pts[(i + 1) % 3]
@@ -78,7 +78,7 @@ class ResistorNetwork:
             l1 = (pm1 - p1).sq_length()
 
             if l0 + l1 < lm1 * (1.0 - 1e-10):
-                return i != 0
+                return i
 
         return None
 
-- 
2.43.0


From f6dea0a3f7e5fa97e211579a145fa592c20b0b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:04 +0000
Subject: [PATCH 38/48] fix: console messages lost text in square brackets

The console handler interprets markup, so [x] of a net name like a[x] vanished and
[/path] raised a MarkupError.
---
 klayout_pex/log/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..a9d7bb3 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -27,6 +27,7 @@ from functools import cached_property
 import logging
 import rich.console
 import rich.logging
+import rich.markup
 from typing import *
 
 
@@ -49,7 +50,7 @@ class LogLevel(IntEnum):
 
 class LogLevelFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
-        msg = record.getMessage()
+        msg = rich.markup.escape(record.getMessage())
         match record.levelno:
             case LogLevel.WARNING.value: return f"[yellow]{msg}"
             case LogLevel.ERROR.value: return f"[red]{msg}"
-- 
2.43.0


From be21a8daddf2ac3849eaab2339382675bb6f4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:04 +0000
Subject: [PATCH 39/48] fix: no value of --log_level was accepted by the
 netlist tool

---
 klayout_pex/netlist/netlist_cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 1a6af5b..96002ab 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -81,8 +81,7 @@ class NetlistCLI:
         group_special = main_parser.add_argument_group("Special options")
         group_special.add_argument("--help", "-h", action='help', help="show this help message and exit")
         group_special.add_argument("--version", "-v", action='version', version=f'{PROGRAM_NAME} {__version__}')
-        group_special.add_argument("--log_level", dest='log_level',
-                                   default=LogLevel.DEFAULT, type=LogLevel, choices=list(LogLevel),
+        group_special.add_argument("--log_level", dest='log_level', default='subprocess',
                                    help=render_enum_help(topic='log_level', enum_cls=LogLevel))
 
         subparsers = main_parser.add_subparsers(dest="command", help="Sub-commands help")
@@ -136,6 +135,13 @@ class NetlistCLI:
                         error(f"Can't locate netlistsvg executable at {args.netlistsvg_exe_path}")
                         found_errors = True
 
+        try:
+            args.log_level = LogLevel[args.log_level.upper()]
+        except KeyError:
+            error(f"Requested log level {args.log_level.lower()} does not exist, "
+                  f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+            found_errors = True
+
         if found_errors:
             raise ArgumentValidationError("Argument validation failed")
 
-- 
2.43.0


From cce74e4b51dc85a7defe577876b1a72e2156347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:44 +0000
Subject: [PATCH 40/48] fix: log level ALL showed warnings and errors only

---
 klayout_pex/log/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index a9d7bb3..e8fb276 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -32,7 +32,7 @@ from typing import *
 
 
 class LogLevel(IntEnum):
-    ALL = 0
+    ALL = 1  # NOTE: 0 (NOTSET) would mean the level of the root logger (WARNING)
     DEBUG = 10
     SUBPROCESS = 12
     VERBOSE = 15
-- 
2.43.0


From bc5873e7e1b9de8a33ca9699e7b94a5592e7d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:01 +0000
Subject: [PATCH 41/48] fix: side walls of slanted edges had a wrong length in
 the FasterCap model

Subtracting a kdb.DPoint from a kdb.Point rounds to integers, and so did sprod() with the
direction: the wall of a 45 degree edge was 1.41 times too long, and the surface was open.
---
 klayout_pex/fastercap/fastercap_model_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f1fc07b..e7a0f7a 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -619,13 +619,14 @@ class FasterCapModelGenerator:
         de = kdb.DVector(edge.d().x / el, edge.d().y / el)
         ne = kdb.DVector(edge.d().y / el, -edge.d().x / el)
         p0 = ne * ne.sprod(kdb.DPoint(edge.p1) - kdb.DPoint()) + kdb.DPoint()
-        x1 = (edge.p1 - p0).sprod(de)
-        x2 = (edge.p2 - p0).sprod(de)
+        # NOTE: kdb.Point - kdb.DPoint would round p0 and de to integers, which is wrong for slanted edges
+        x1 = (kdb.DPoint(edge.p1) - p0).sprod(de)
+        x2 = (kdb.DPoint(edge.p2) - p0).sprod(de)
 
         key = VKey(kk, p0, de)
-        surface = kdb.Box(x1,
+        surface = kdb.Box(math.floor(x1 + 0.5),
                           math.floor(self.z / self.dbu + 0.5),
-                          x2,
+                          math.floor(x2 + 0.5),
                           math.floor(self.zz / self.dbu + 0.5))
         return key, surface
 
-- 
2.43.0


From c27e7073a1d00db048a9eafba7a73556ae563267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:48 +0000
Subject: [PATCH 42/48] fix: a net with a slash or a very long name crashed the
 STL file generation

KLayout net names can contain characters that are not allowed in a file name (e.g. hierarchical
names), and a file name is limited in bytes.
---
 .../fastercap/fastercap_model_generator.py    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index e7a0f7a..d30ce7b 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -979,6 +979,12 @@ class FasterCapModelGenerator:
                     edges_by_p2[r.p1].append(r)
 
     def dump_stl(self, output_dir_path: str, prefix: str):
+        max_filename_length: Optional[int] = None
+        try:
+            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
+        except AttributeError:
+            pass  # NOTE: windows does not support the os.pathconf attribute
+
         for mn in self.materials.keys():
             tris = self._collect_diel_tris(mn)
             output_path = os.path.join(output_dir_path, f"{prefix}diel_{mn}.stl")
@@ -986,7 +992,18 @@ class FasterCapModelGenerator:
 
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = f"{prefix}cond_{nn}.stl"
+            # NOTE: a net name can contain characters that are not allowed in a file name,
+            #       file names are limited in bytes
+            if '/' in nn or (max_filename_length is not None and len(fn.encode('utf-8')) > max_filename_length):
+                d = hashlib.md5(nn.encode('utf-8')).digest()
+                h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+                fn_nn = nn.replace('/', '_').encode('utf-8')
+                if max_filename_length is not None:
+                    remaining_len = len(f"{prefix}cond__{h}.stl".encode('utf-8'))
+                    fn_nn = fn_nn[0: max(0, max_filename_length - remaining_len)]
+                fn = f"{prefix}cond_{fn_nn.decode('utf-8', 'ignore')}_{h}.stl"
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From eb35b8d95d8c622307c76c6c07f682fa6753f6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:52 +0000
Subject: [PATCH 43/48] fix: a marker report whose category names are quoted
 could not be repaired

---
 klayout_pex/klayout/repair_rdb.py | 47 ++++++++++++++++---------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..06e2bb1 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -48,35 +48,37 @@ from ..log import (
 def parse_category_path(category_path: str) -> List[str]:
     within_escaped = False
     within_backslash = False
-    current_word = ''
+    octal_digits = ''
+    current_word = b''
     path_list = []
     for c in category_path:
+        if within_backslash:
+            # NOTE: apart from quotes and backslashes, KLayout escapes control characters
+            #       and non-ASCII characters (each UTF-8 byte as 3 octal digits)
+            if c in '01234567':
+                octal_digits += c
+                if len(octal_digits) < 3:
+                    continue
+                current_word += bytes([int(octal_digits, 8)])
+                octal_digits = ''
+            else:
+                current_word += {'n': '\n', 'r': '\r', 't': '\t'}.get(c, c).encode('utf-8')
+            within_backslash = False
+            continue
         match c:
             case '.':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                elif within_escaped:
-                    current_word += c
+                if within_escaped:
+                    current_word += b'.'
                 else:
-                    path_list.append(current_word)
-                    current_word = ''
+                    path_list.append(current_word.decode('utf-8'))
+                    current_word = b''
             case '\\':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_backslash = True
+                within_backslash = True
             case '\'':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_escaped = not within_escaped
+                within_escaped = not within_escaped
             case _:
-                current_word += c
-    if len(current_word) >= 1:
-        path_list.append(current_word)
+                current_word += c.encode('utf-8')
+    path_list.append(current_word.decode('utf-8'))
     return path_list
 
 def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
@@ -93,7 +95,8 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            # NOTE: the name can contain quotes, so it can't be part of an XPath expression
+            subelem = next((e for e in elemcats.findall("./category") if e.findtext("./name") == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From 3eaae60209ba4608ec234704111c880eea2d25ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 44/48] fix: files kpex wrote itself could not be read back
 outside an UTF-8 locale

---
 klayout_pex/common/capacitance_matrix.py  | 2 +-
 klayout_pex/fastcap/fastcap_runner.py     | 2 +-
 klayout_pex/fastercap/fastercap_runner.py | 2 +-
 klayout_pex/kpex_cli.py                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/common/capacitance_matrix.py b/klayout_pex/common/capacitance_matrix.py
index 9ef8c91..e2c9bbd 100644
--- a/klayout_pex/common/capacitance_matrix.py
+++ b/klayout_pex/common/capacitance_matrix.py
@@ -45,7 +45,7 @@ class CapacitanceMatrix:
 
     @classmethod
     def parse_csv(cls, path: str, separator: str = ';'):
-        with open(path, 'r') as f:
+        with open(path, 'r', encoding='utf-8') as f:
             lines = f.readlines()
             if len(lines) < 2:
                 raise Exception(f"Capacitance Matrix CSV must at least have 2 lines: "
diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index c483627..b6ee94d 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -127,7 +127,7 @@ FASTCAP_UNITS: Dict[str, float] = {
 # $2%GROUP3 3      -2115      130.9       6792      -5388
 # $2%GROUP3 4      54.97 -3.682e+05      -5388  3.753e+05
 def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
-    with open(log_path, 'r') as f:
+    with open(log_path, 'r', encoding='utf-8') as f:
         rlines = f.readlines()
         rlines.reverse()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f91640f..7a11d48 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -103,7 +103,7 @@ def run_fastercap(exe_path: str,
 
 
 def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
-    with open(log_path, 'r') as f:
+    with open(log_path, 'r', encoding='utf-8') as f:
         rlines = f.readlines()
         rlines.reverse()
 
diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 6e64686..bddb5fb 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -551,7 +551,7 @@ class KpexCLI:
                                      output_path=expanded_netlist_csv_path)
 
         rule("Extended netlist (CSV format):")
-        with open(expanded_netlist_csv_path, 'r') as f:
+        with open(expanded_netlist_csv_path, 'r', encoding='utf-8') as f:
             for line in f.readlines():
                 subproc(line[:-1])  # abusing subproc, simply want verbatim
         rule()
@@ -707,7 +707,7 @@ class KpexCLI:
                     f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\n")
 
             rule('kpex/2.5D extracted netlist (CSV format)')
-            with open(netlist_csv_path, 'r') as f:
+            with open(netlist_csv_path, 'r', encoding='utf-8') as f:
                 for line in f.readlines():
                     subproc(line[:-1])  # abusing subproc, simply want verbatim
 
-- 
2.43.0


From ffcf653584b8378fdf234a066eee09d81085e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:11 +0000
Subject: [PATCH 45/48] fix: output of a program that is not UTF-8 ended the
 run, in other locales it was misread

---
 klayout_pex/fastcap/fastcap_runner.py       | 3 ++-
 klayout_pex/fastercap/fastercap_runner.py   | 3 ++-
 klayout_pex/klayout/lvs_runner.py           | 3 ++-
 klayout_pex/magic/magic_runner.py           | 3 ++-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index b6ee94d..12efc08 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -84,7 +84,8 @@ def run_fastcap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            encoding='utf-8', errors='backslashreplace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 7a11d48..0eb3b78 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -81,7 +81,8 @@ def run_fastercap(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            encoding='utf-8', errors='backslashreplace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 6fc3980..31af28f 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -78,7 +78,8 @@ class LVSRunner:
                                 stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT,
                                 universal_newlines=True,
-                                text=True)
+                                text=True,
+                                encoding='utf-8', errors='backslashreplace')
         with open(log_path, 'w', encoding='utf-8') as f:
             while True:
                 line = proc.stdout.readline()
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 28eb703..ca963ab 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -188,7 +188,8 @@ def run_magic(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            encoding='utf-8', errors='backslashreplace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 66b1dc9..9611205 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -67,7 +67,8 @@ def run_netlistsvg(exe_path: str,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
-                            text=True)
+                            text=True,
+                            encoding='utf-8', errors='backslashreplace')
     with open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
-- 
2.43.0


From 0f188e5efdc9db9c2d019f3cf85ced71c025d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:11 +0000
Subject: [PATCH 46/48] fix: a marker report was misread outside an UTF-8
 locale when repaired

---
 klayout_pex/klayout/repair_rdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 06e2bb1..0ad83ae 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -120,7 +120,7 @@ def repair_rdb(rdb_path: str):
         with gzip.open(rdb_path, 'r') as f:
             repair_rdb_xml(f, new_xml_path)
     else:
-        with open(rdb_path, 'r') as f:
+        with open(rdb_path, 'rb') as f:
             repair_rdb_xml(f, new_xml_path)
 
     report = rdb.ReportDatabase('')
-- 
2.43.0


From f707769f027cb222307efd0e15e6c0e207d824e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:11 +0000
Subject: [PATCH 47/48] fix: messages with non-ASCII characters were lost from
 the log files outside an UTF-8 locale

---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index bddb5fb..eb625b1 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -745,7 +745,7 @@ class KpexCLI:
     def setup_logging(self, args: argparse.Namespace):
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
-            handler = logging.FileHandler(log_path)
+            handler = logging.FileHandler(log_path, encoding='utf-8')
             handler.setLevel(LogLevel.SUBPROCESS)
             if formatter:
                 handler.setFormatter(formatter)
-- 
2.43.0


From f31353c585bdaa41e84e463c055f38b2a6380887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:44 +0000
Subject: [PATCH 48/48] fix: a side halo of 0 with scaling to the halo raised a
 ZeroDivisionError in the fringe extraction

---
 klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index a9a6998..2e29db2 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -335,7 +335,7 @@ class SidewallAndFringeExtractor:
                 full_halo_ratio = (2.0 / math.pi) * math.atan(alpha_c * self.side_halo)
                 # NOTE: for a large enough halo, full_halo would be 1,
                 #       but it is smaller, so we compensate
-                if full_halo_ratio < 1.0:
+                if 0.0 < full_halo_ratio < 1.0:
                     cnear /= full_halo_ratio
                     cfar /= full_halo_ratio
 
-- 
2.43.0

