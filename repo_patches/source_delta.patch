From 3c8413a0e5d784323a773601250fd184b4a64b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:48 +0000
Subject: [PATCH 01/31] fix: bidirectional unit lower regulation tightens, not
 relaxes, the joint capacity lower slope

The load side lower_reg of a bidirectional unit entered the lower slope constraint with coefficient +1.0, so enabling
lower regulation on the load side relaxed the enablement minimum. It must enter with -1.0, as the generator side does.
---
 src/nempy/spot_market_backend/fcas_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..2bd17fa 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -298,7 +298,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
+    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = -1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 8065f80833f8ed5f056cc24a99e64c4b0a5d3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:56 +0000
Subject: [PATCH 02/31] fix: bidirectional unit joint ramping counts energy
 from both sides of the unit

The regulation joint ramping constraints of a bidirectional unit only included the energy dispatch of the side(s) with a
regulation bid, so e.g. a unit charging with a generator side only raise_reg bid was wrongly limited.
---
 src/nempy/spot_market_backend/fcas_constraints.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 2bd17fa..8fcf78f 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -16,7 +16,12 @@ def joint_ramping_constraints_raise_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = 1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
+    # Energy from both sides of the unit counts, even if only one side is bidding for regulation.
+    variable_mapping_energy = pd.merge(
+        rhs_and_type.loc[:, ['constraint_id', 'unit']],
+        pd.DataFrame({'dispatch_type': ['generator', 'load']}),
+        how='cross'
+    )
     variable_mapping_energy['service'] = 'energy'
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
@@ -36,7 +41,12 @@ def joint_ramping_constraints_lower_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = -1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
+    # Energy from both sides of the unit counts, even if only one side is bidding for regulation.
+    variable_mapping_energy = pd.merge(
+        rhs_and_type.loc[:, ['constraint_id', 'unit']],
+        pd.DataFrame({'dispatch_type': ['generator', 'load']}),
+        how='cross'
+    )
     variable_mapping_energy['service'] = 'energy'
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
-- 
2.43.0


From c3a9f1c8fa4f70e61c40fd60bd0db56f1b25fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 03/31] fix: soft joint ramping constraints when no unit bids
 one of the regulation services

set_joint_ramping_constraints_reg(violation_cost=...) raised ModelBuildError whenever only raise_reg, only lower_reg or only
bidirectional units bid for regulation, because the constraint families not created were made elastic anyway.
---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..c696590 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1593,8 +1593,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-- 
2.43.0


From 7391cd268e2264ddd3104b83f005fd6e9dd81f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:42 +0000
Subject: [PATCH 04/31] fix: tie break constraints when no bids tie, and when
 bid band pairs share a name

set_tie_break_constraints raised ValueError when no two energy bids in a region tied. The id used to drop mirrored pairs
joined the sorted unit names and bands, so distinct pairs could collide and one of their constraints was dropped.
---
 src/nempy/markets.py                              | 3 ++-
 src/nempy/spot_market_backend/unit_constraints.py | 9 +++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index c696590..3e3b953 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2851,7 +2851,8 @@ class SpotMarket:
 
         self._lhs_coefficients['tie_break'] = lhs
         self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
+        if not rhs.empty:
+            self._next_constraint_id = rhs['constraint_id'].max() + 1
         self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..97184d2 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -567,13 +567,10 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
 
     def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
+        return tuple(sorted([(unit_x, str(band_x)), (unit_y, str(band_y))]))
 
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
+    constraints['name'] = [make_id(*x) for x in zip(constraints['unit_x'], constraints['capacity_band_x'],
+                                                    constraints['unit_y'], constraints['capacity_band_y'])]
 
     constraints = constraints.drop_duplicates('name')
 
-- 
2.43.0


From 5f66f17a34c28ce8f9c52d3ea5217297d4bc117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 05/31] fix: ramp rate constraints when no plain generator or
 load is left to constrain

set_unit_ramp_rate_constraints raised ValueError (max of an empty sequence) when every unit is bidirectional, or when every
unit is excluded because of its fast start mode.
---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 3e3b953..018f27f 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -850,13 +850,15 @@ class SpotMarket:
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not rhs_and_type.empty:
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not rhs_and_type.empty:
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
-- 
2.43.0


From b9a4aed9e01bd0dec2e033a77944013a5f7da76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:28 +0000
Subject: [PATCH 06/31] fix: re-setting a soft constraint as a hard one broke
 the next dispatch

The deficit variables' lhs terms of the superseded constraints were kept and dispatch raised KeyError on them.
---
 src/nempy/markets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 018f27f..2833fc3 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3037,6 +3037,9 @@ class SpotMarket:
 
         if len(constraints_rhs_and_type) > 0:
             constraints_rhs_and_type = pd.concat(constraints_rhs_and_type)
+            # Constraints re-set as hard constraints leave behind lhs terms of superseded constraints, ignore these.
+            constraints_lhs = constraints_lhs[
+                constraints_lhs['constraint_id'].isin(constraints_rhs_and_type['constraint_id'])]
             si.add_constraints(constraints_lhs, constraints_rhs_and_type)
 
         # If interconnectors with losses are being used, create special ordered sets for modelling losses.
-- 
2.43.0


From 15955ae29a17a1c52905a714b2d5b88596f50f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:43 +0000
Subject: [PATCH 07/31] fix: pricing problem keeps the loss break points either
 side of the flow when they are unevenly spaced

---
 src/nempy/markets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 2833fc3..92641b6 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3171,9 +3171,10 @@ class SpotMarket:
         vars['distance'] = (vars['value'] - vars['break_point']).abs()
 
         def not_closest_three(df):
-            df = df.sort_values('distance')
-            df = df.iloc[3:, :]
-            return df
+            # Keep the break point closest to the flow and its two neighbours, so the flow lies between the points kept.
+            df = df.sort_values('break_point')
+            first = max(0, min(int(df['distance'].values.argmin()) - 1, len(df) - 3))
+            return df.drop(df.index[first:first + 3])
 
         vars_to_remove = vars.groupby(['interconnector', 'link'], as_index=False).apply(not_closest_three, include_groups=False)
         si.disable_variables(vars_to_remove.loc[:, ['variable_id']])
-- 
2.43.0


From 1e8432d80576348c49ac86d8a334d20099f7bb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:49 +0000
Subject: [PATCH 08/31] fix: transmission losses in the region dispatch summary
 follow the regional energy balance

---
 src/nempy/markets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 92641b6..f36139c 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3666,10 +3666,11 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
+            # As in the regional energy balance, the flow at each end is scaled by the loss factor of that end.
+            if direction == 'to_region':
                 losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
+            else:
+                losses = flow * (loss_factor - 1)
             return losses
 
         flows_and_losses['transmission_losses'] = \
-- 
2.43.0


From 5cde49da85a7cf7683520bf985eb98da5045ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:49 +0000
Subject: [PATCH 09/31] fix: region dispatch summary keeps regions without
 interconnectors

---
 src/nempy/markets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index f36139c..a1429a9 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3551,11 +3551,12 @@ class SpotMarket:
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
             dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
-        return dispatch_summary
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+        # Regions without interconnectors have no flow or losses.
+        return dispatch_summary.fillna(0.0)
 
     def _get_net_unit_dispatch_by_region(self):
 
-- 
2.43.0


From 37ce9f414068b56536c75ce8b216d1224cbcc868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:15 +0000
Subject: [PATCH 10/31] fix: right hand side equations that end with a group
 without a group term

---
 src/nempy/historical_inputs/rhs_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..844caf7 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -576,7 +576,7 @@ def _rpn_stack(equation):
             group_id = term['@GroupTerm']
             group = _collect_group(equation, group_id)
             group_result = _rpn_calc(group)
-            if equation[i + len(group)]['@SpdType'] == 'G':
+            if i + len(group) < len(equation) and equation[i + len(group)]['@SpdType'] == 'G':
                 equation[i + len(group)]['@Value'] = group_result
             else:
                 stack[0] += group_result
-- 
2.43.0


From 40fb4d07548e50647fb5864c22bd031676150e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:58 +0000
Subject: [PATCH 11/31] fix: nested groups whose group term follows them keep
 their value

---
 src/nempy/historical_inputs/rhs_calculator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 844caf7..d1673ff 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -540,7 +540,6 @@ def _rpn_stack(equation):
     ignore_groups = []  # Once groups have been calculated they are added to list to be ignored so they aren't processed
     # again
     pop_flag = False
-    _clear_group_values(equation)
     for i, term in enumerate(equation):
 
         if (term['@SpdType'] == 'G' and '@Value' not in term and
@@ -564,7 +563,7 @@ def _rpn_stack(equation):
             group = _collect_group(equation, group_id)
             if remove_first_member:
                 group.pop
-            group_result = _rpn_calc(group)
+            group_result = _rpn_stack(group)[0]
             term['@Value'] = group_result
             ignore_groups.append(group_id)
             sub_groups_ids = _get_sub_groups(group)
@@ -575,7 +574,7 @@ def _rpn_stack(equation):
             # the value from the group is added directly to the stack.
             group_id = term['@GroupTerm']
             group = _collect_group(equation, group_id)
-            group_result = _rpn_calc(group)
+            group_result = _rpn_stack(group)[0]
             if i + len(group) < len(equation) and equation[i + len(group)]['@SpdType'] == 'G':
                 equation[i + len(group)]['@Value'] = group_result
             else:
@@ -650,6 +649,9 @@ def _rpn_stack(equation):
 
 
 def _rpn_calc(equation):
+    # Values of groups from an earlier evaluation are cleared here, and not when evaluating a group, as the terms of a
+    # group may include the already evaluated group term of a sub group.
+    _clear_group_values(equation)
     return _rpn_stack(equation)[0]
 
 
-- 
2.43.0


From 2ca4ce35c6265c8ebf1f48ccf6ea67225a846579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:53 +0000
Subject: [PATCH 12/31] fix: list of dependent right hand sides includes nested
 generic equations, each constraint once

---
 src/nempy/historical_inputs/rhs_calculator.py | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index d1673ff..edce3a9 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -382,19 +382,23 @@ class RHSCalc:
         list[str] a list of strings detailing the constraits' whose RHS equations depend on the specified value.
         """
         dependent_generic_equations = []
-        for equation_id, equation in self.generic_equations.items():
-            for term in equation:
-                if (term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                        dependent_generic_equations):
+
+        def depends(term):
+            return ((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                    (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X'))
+
+        # Generic equations can reference other generic equations, so repeat until no more dependent ones are found.
+        number_found = -1
+        while len(dependent_generic_equations) > number_found:
+            number_found = len(dependent_generic_equations)
+            for equation_id, equation in self.generic_equations.items():
+                if equation_id not in dependent_generic_equations and any(depends(term) for term in equation):
                     dependent_generic_equations.append(equation_id)
 
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
-            for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
-                    dependent_rhs_equations.append(equation_id)
+            if any(depends(term) for term in equation):
+                dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
 
-- 
2.43.0


From be9fbca9fa4c762f34b24cfacfb1d3f997ff0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:48 +0000
Subject: [PATCH 13/31] fix: volume offers report values absent from the case
 file as missing

---
 src/nempy/historical_inputs/xml_cache.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..a4d8573 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -368,17 +368,17 @@ class XMLCacheManager:
 
         >>> manager.get_unit_volume_bids()
                  DUID     BIDTYPE DIRECTION  MAXAVAIL  ENABLEMENTMIN  ENABLEMENTMAX  LOWBREAKPOINT  HIGHBREAKPOINT  BANDAVAIL1  BANDAVAIL2  BANDAVAIL3  BANDAVAIL4  BANDAVAIL5  BANDAVAIL6  BANDAVAIL7  BANDAVAIL8  BANDAVAIL9  BANDAVAIL10  RAMPDOWNRATE  RAMPUPRATE
-        0     ADPBA1G      ENERGY      None       6.0            6.0            6.0            6.0             6.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0         120.0       120.0
-        1     ADPBA1G    LOWERREG      None       6.0            0.0            6.0            6.0             6.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           0.0         0.0
-        2     ADPBA1G   RAISE5MIN      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           0.0         0.0
-        3     ADPBA1G    RAISEREG      None       6.0            0.0            6.0            0.0             0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           0.0         0.0
-        4     ADPBA1G  RAISE60SEC      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           0.0         0.0
+        0     ADPBA1G      ENERGY      None       6.0            NaN            NaN            NaN             NaN         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0         120.0       120.0
+        1     ADPBA1G    LOWERREG      None       6.0            0.0            6.0            6.0             6.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           NaN         NaN
+        2     ADPBA1G   RAISE5MIN      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           NaN         NaN
+        3     ADPBA1G    RAISEREG      None       6.0            0.0            6.0            0.0             0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         6.0         0.0          0.0           NaN         NaN
+        4     ADPBA1G  RAISE60SEC      None       3.0            0.0            6.0            0.0             3.0         3.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           NaN         NaN
         ...       ...         ...       ...       ...            ...            ...            ...             ...         ...         ...         ...         ...         ...         ...         ...         ...         ...          ...           ...         ...
-        1725    YWPS4   LOWER6SEC      None       0.0          250.0          385.0          275.0           385.0        15.0        10.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           0.0         0.0
-        1726    YWPS4   RAISE5MIN      None       0.0          250.0          390.0          250.0           380.0         0.0         0.0         0.0         0.0         5.0         0.0         0.0         5.0         0.0         10.0          10.0        10.0
-        1727    YWPS4    RAISEREG      None       0.0          250.0          385.0          250.0           370.0         0.0         0.0         0.0         0.0         0.0         0.0         5.0        10.0         0.0          5.0           5.0         5.0
-        1728    YWPS4  RAISE60SEC      None       0.0          220.0          400.0          220.0           390.0         0.0         0.0         0.0         0.0         0.0         5.0         5.0         0.0         0.0         10.0          10.0        10.0
-        1729    YWPS4   RAISE6SEC      None       0.0          220.0          405.0          220.0           390.0         0.0         0.0         0.0         5.0         5.0         5.0         5.0         0.0         0.0          5.0           5.0         5.0
+        1725    YWPS4   LOWER6SEC      None       0.0          250.0          385.0          275.0           385.0        15.0        10.0         0.0         0.0         0.0         0.0         0.0         0.0         0.0          0.0           NaN         NaN
+        1726    YWPS4   RAISE5MIN      None       0.0          250.0          390.0          250.0           380.0         0.0         0.0         0.0         0.0         5.0         0.0         0.0         5.0         0.0         10.0           NaN         NaN
+        1727    YWPS4    RAISEREG      None       0.0          250.0          385.0          250.0           370.0         0.0         0.0         0.0         0.0         0.0         0.0         5.0        10.0         0.0          5.0           NaN         NaN
+        1728    YWPS4  RAISE60SEC      None       0.0          220.0          400.0          220.0           390.0         0.0         0.0         0.0         0.0         0.0         5.0         5.0         0.0         0.0         10.0           NaN         NaN
+        1729    YWPS4   RAISE6SEC      None       0.0          220.0          405.0          220.0           390.0         0.0         0.0         0.0         5.0         5.0         5.0         5.0         0.0         0.0          5.0           NaN         NaN
         <BLANKLINE>
         [1730 rows x 20 columns]
 
@@ -440,6 +440,8 @@ class XMLCacheManager:
                         value = float(trade[aemo_name])
                 elif aemo_name == '@Direction':
                     value = 'missing'
+                else:
+                    value = np.nan
                 trades_by_unit_and_type[our_name].append(value)
             return trades_by_unit_and_type
 
-- 
2.43.0


From ed91e0d018e82cd121f6531c1e757f1e4ffb71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:56 +0000
Subject: [PATCH 14/31] fix: service prices are numbers, from the run without
 intervention

---
 src/nempy/historical_inputs/xml_cache.py | 80 ++++++++++++------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index a4d8573..05e9f2b 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1109,45 +1109,45 @@ class XMLCacheManager:
         >>> manager.get_service_prices()
            region     service      price
         0    NSW1      ENERGY   53.99972
-        1    NSW1   RAISE5MIN       0.25
-        2    NSW1  RAISE60SEC       0.25
-        3    NSW1  LOWER60SEC          3
-        4    NSW1   RAISE6SEC       0.38
-        5    NSW1   LOWER6SEC          1
-        6    NSW1   RAISE1SEC       0.94
-        7    NSW1   LOWER1SEC       0.01
-        8    QLD1      ENERGY      -10.4
-        9    QLD1   RAISE5MIN       0.25
-        10   QLD1  RAISE60SEC       0.25
-        11   QLD1  LOWER60SEC          3
-        12   QLD1   RAISE6SEC       0.38
-        13   QLD1   LOWER6SEC          1
-        14   QLD1   RAISE1SEC       0.94
-        15   QLD1   LOWER1SEC       0.01
-        16    SA1      ENERGY        -30
-        17    SA1   RAISE5MIN       0.25
-        18    SA1  RAISE60SEC       0.25
-        19    SA1  LOWER60SEC          3
-        20    SA1   RAISE6SEC       0.38
-        21    SA1   LOWER6SEC          1
-        22    SA1   RAISE1SEC       0.94
-        23    SA1   LOWER1SEC       0.01
-        24   TAS1      ENERGY      260.2
-        25   TAS1   RAISE5MIN       0.38
-        26   TAS1  RAISE60SEC       0.38
-        27   TAS1  LOWER60SEC       0.38
-        28   TAS1   RAISE6SEC       0.38
-        29   TAS1   LOWER6SEC       0.38
-        30   TAS1   RAISE1SEC       0.94
-        31   TAS1   LOWER1SEC          0
+        1    NSW1   RAISE5MIN    0.25000
+        2    NSW1  RAISE60SEC    0.25000
+        3    NSW1  LOWER60SEC    3.00000
+        4    NSW1   RAISE6SEC    0.38000
+        5    NSW1   LOWER6SEC    1.00000
+        6    NSW1   RAISE1SEC    0.94000
+        7    NSW1   LOWER1SEC    0.01000
+        8    QLD1      ENERGY  -10.40000
+        9    QLD1   RAISE5MIN    0.25000
+        10   QLD1  RAISE60SEC    0.25000
+        11   QLD1  LOWER60SEC    3.00000
+        12   QLD1   RAISE6SEC    0.38000
+        13   QLD1   LOWER6SEC    1.00000
+        14   QLD1   RAISE1SEC    0.94000
+        15   QLD1   LOWER1SEC    0.01000
+        16    SA1      ENERGY  -30.00000
+        17    SA1   RAISE5MIN    0.25000
+        18    SA1  RAISE60SEC    0.25000
+        19    SA1  LOWER60SEC    3.00000
+        20    SA1   RAISE6SEC    0.38000
+        21    SA1   LOWER6SEC    1.00000
+        22    SA1   RAISE1SEC    0.94000
+        23    SA1   LOWER1SEC    0.01000
+        24   TAS1      ENERGY  260.20000
+        25   TAS1   RAISE5MIN    0.38000
+        26   TAS1  RAISE60SEC    0.38000
+        27   TAS1  LOWER60SEC    0.38000
+        28   TAS1   RAISE6SEC    0.38000
+        29   TAS1   LOWER6SEC    0.38000
+        30   TAS1   RAISE1SEC    0.94000
+        31   TAS1   LOWER1SEC    0.00000
         32   VIC1      ENERGY  202.07105
-        33   VIC1   RAISE5MIN       0.25
-        34   VIC1  RAISE60SEC       0.25
-        35   VIC1  LOWER60SEC          3
-        36   VIC1   RAISE6SEC       0.38
-        37   VIC1   LOWER6SEC          1
-        38   VIC1   RAISE1SEC       0.94
-        39   VIC1   LOWER1SEC       0.01
+        33   VIC1   RAISE5MIN    0.25000
+        34   VIC1  RAISE60SEC    0.25000
+        35   VIC1  LOWER60SEC    3.00000
+        36   VIC1   RAISE6SEC    0.38000
+        37   VIC1   LOWER6SEC    1.00000
+        38   VIC1   RAISE1SEC    0.94000
+        39   VIC1   LOWER1SEC    0.01000
 
         Returns
         -------
@@ -1168,11 +1168,13 @@ class XMLCacheManager:
         prices = dict(region=[], service=[], price=[])
         regions = self.xml['NEMSPDCaseFile']['NemSpdOutputs']['RegionSolution']
         for region in regions:
+            if region.get('@Intervention', '0') != '0':
+                continue
             for xml_service, mms_service in service_type_map.items():
                 if xml_service in region:
                     prices['region'].append(region['@RegionID'])
                     prices['service'].append(mms_service)
-                    prices['price'].append(region[xml_service])
+                    prices['price'].append(float(region[xml_service]))
         return pd.DataFrame(prices)
 
 
-- 
2.43.0


From 8cf36375c353e9e349a92aad8b32a01d6e2332ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:30 +0000
Subject: [PATCH 15/31] fix: over-constrained dispatch file is used only if it
 exists

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 05e9f2b..9d0a5f4 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -153,7 +153,7 @@ class XMLCacheManager:
         path_name_OCD = Path(self.cache_folder) / name_OCD
         if os.path.exists(path_name):
             return name
-        elif path_name_OCD:
+        elif os.path.exists(path_name_OCD):
             return name_OCD
         else:
             return name
-- 
2.43.0


From c3ee992ddd6e63758910558a0dea3ea45799b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:46 +0000
Subject: [PATCH 16/31] fix: process bids of an interval without forecast units

---
 src/nempy/historical_inputs/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index 7ced716..7063384 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -1505,15 +1505,15 @@ def _scaling_for_uigf(BIDPEROFFER_D, ugif_values):
     fcas_semi_scheduled = fcas_bids[fcas_bids['DUID'].isin(semi_scheduled_units)]
     fcas_not_semi_scheduled = fcas_bids[~fcas_bids['DUID'].isin(semi_scheduled_units)]
 
-    fcas_semi_scheduled = pd.merge(fcas_semi_scheduled, ugif_values.loc[:, ['DUID', 'UIGF']],
-                                   'inner', on='DUID')
-
     def get_new_high_break_point(availability, high_break_point, enablement_max):
         if enablement_max > availability:
             high_break_point = high_break_point - (enablement_max - availability)
         return high_break_point
 
     if not fcas_semi_scheduled.empty:
+        fcas_semi_scheduled = pd.merge(fcas_semi_scheduled, ugif_values.loc[:, ['DUID', 'UIGF']],
+                                       'inner', on='DUID')
+
         # Scale high break points.
         fcas_semi_scheduled['HIGHBREAKPOINT'] = \
             fcas_semi_scheduled.apply(lambda x: get_new_high_break_point(x['UIGF'], x['HIGHBREAKPOINT'],
-- 
2.43.0


From bec3f13e7096f8fae7529d6317b126fe6b7e0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:39 +0000
Subject: [PATCH 17/31] fix: interconnector definitions of an interval without
 market interconnectors

---
 src/nempy/historical_inputs/xml_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 9d0a5f4..8e88028 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1040,7 +1040,8 @@ class XMLCacheManager:
                     bid_availability['to_region'].append(offer['@RegionID'])
                     bid_availability['availability'].append(float(offer['@MaxAvail']))
         bid_availability = pd.DataFrame(bid_availability)
-        return bid_availability
+        # Keep identifiers as text when there are no market interconnectors, so the table can be merged.
+        return bid_availability.astype({'interconnector': object, 'to_region': object})
 
     def find_intervals_with_violations(self, limit, start_year, start_month, end_year, end_month):
         """Find the set of dispatch intervals where the non-intervention dispatch runs had constraint violations.
-- 
2.43.0


From 2ddb7dd779b7229cacc652968c92929e1170a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:56 +0000
Subject: [PATCH 18/31] fix: construct ramp rate parameters when no service is
 given

---
 src/nempy/time_sequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..df856c4 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,7 +66,10 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    else:
+        last_interval_energy_dispatch = last_interval_dispatch
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0


From deb8ac166fee096dfca91bcfd3ffabadea0f58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 19/31] fix: carry the net output of bidirectional units into
 the next interval

---
 src/nempy/time_sequential.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index df856c4..c8ab711 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -70,6 +70,13 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
         last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
     else:
         last_interval_energy_dispatch = last_interval_dispatch
+    if 'dispatch_type' in last_interval_energy_dispatch.columns:
+        # Bidirectional units are dispatched both as a generator and as a load, their output is the net of the two.
+        last_interval_energy_dispatch = last_interval_energy_dispatch.copy()
+        dispatch_types = last_interval_energy_dispatch.groupby('unit')['dispatch_type'].transform('nunique')
+        bidirectional_load = (dispatch_types > 1) & (last_interval_energy_dispatch['dispatch_type'] == 'load')
+        last_interval_energy_dispatch.loc[bidirectional_load, 'dispatch'] *= -1.0
+        last_interval_energy_dispatch = last_interval_energy_dispatch.groupby('unit', as_index=False)['dispatch'].sum()
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0


From 6f1db502c4decbe57c012ccce133e4b98d6359d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:52 +0000
Subject: [PATCH 20/31] fix: fast start profiles that constrain nothing replace
 earlier ones

---
 src/nempy/markets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index a1429a9..78cc1d3 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1038,6 +1038,8 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
             if violation_cost is not None:
                 self.make_constraints_elastic('fast_start', violation_cost)
+        else:
+            self.remove_fast_start_constraints()
 
     def remove_fast_start_constraints(self):
         if 'fast_start' in self._constraints_rhs_and_type:
-- 
2.43.0


From e12802b32dce3b81b7d797252f045824a24e901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:19 +0000
Subject: [PATCH 21/31] fix: ramp rates without bidirectional units replace
 earlier bidirectional ramp constraints

---
 src/nempy/markets.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 78cc1d3..f20e213 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -860,6 +860,9 @@ class SpotMarket:
         if not rhs_and_type.empty:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
+        self._remove_unit_constraints('bidirectional_ramp_up')
+        self._remove_unit_constraints('bidirectional_ramp_down')
+
         if not bidirectional_unit_ramp_details.empty:
 
             rhs_and_type, variable_map = rrp._bidirectional_ramp_constraints(
@@ -1042,13 +1045,16 @@ class SpotMarket:
             self.remove_fast_start_constraints()
 
     def remove_fast_start_constraints(self):
-        if 'fast_start' in self._constraints_rhs_and_type:
-            del self._constraints_rhs_and_type['fast_start']
-            del self._constraint_to_variable_map['unit_level']['fast_start']
-        if 'fast_start_deficit' in self._decision_variables:
-            del self._decision_variables['fast_start_deficit']
-            del self._objective_function_components['fast_start_deficit']
-            del self._lhs_coefficients['fast_start_deficit']
+        self._remove_unit_constraints('fast_start')
+
+    def _remove_unit_constraints(self, constraints_key):
+        if constraints_key in self._constraints_rhs_and_type:
+            del self._constraints_rhs_and_type[constraints_key]
+            del self._constraint_to_variable_map['unit_level'][constraints_key]
+        if constraints_key + '_deficit' in self._decision_variables:
+            del self._decision_variables[constraints_key + '_deficit']
+            del self._objective_function_components[constraints_key + '_deficit']
+            del self._lhs_coefficients[constraints_key + '_deficit']
 
     def _validate_fast_start_profiles(self, fast_start_profiles):
         schema = dv.DataFrameSchema(name='fast_start_profiles', primary_keys=['unit'])
-- 
2.43.0


From c1ca30d54508146db7cd3e412419dc01384492e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:32 +0000
Subject: [PATCH 22/31] fix: joint ramping constraints replace all earlier ones

---
 src/nempy/markets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index f20e213..0bfa4ff 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1518,6 +1518,10 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        for constraints_key in ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
+                                'joint_ramping_lower_reg_bdu']:
+            self._remove_unit_constraints(constraints_key)
+
         bid_variables = self._decision_variables['bids']
 
         raise_reg_units = \
-- 
2.43.0


From 2543de14c69318298544e93dd08583a121328f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 23/31] fix: reject capacities that are not non-negative
 numbers

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 0bfa4ff..22706f5 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -536,7 +536,8 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         if self.dispatch_type_required:
             schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
@@ -645,7 +646,8 @@ class SpotMarket:
     def _validate_uigf_limits(self, unit_limits):
         schema = dv.DataFrameSchema(name='unit_limits', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
-- 
2.43.0


From 2fc720fd9334e8ed065e0edf96f6ab347881091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:44 +0000
Subject: [PATCH 24/31] fix: reject negative ramp rates

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 22706f5..c974500 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -892,8 +892,10 @@ class SpotMarket:
         schema = dv.DataFrameSchema(name='ramp_details', primary_keys=['unit', 'dispatch_type'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         schema.add_column(dv.SeriesSchema(name='initial_output', data_type=np.float64, must_be_real_number=True))
-        schema.add_column(dv.SeriesSchema(name='ramp_up_rate', data_type=np.float64, must_be_real_number=True))
-        schema.add_column(dv.SeriesSchema(name='ramp_down_rate', data_type=np.float64, must_be_real_number=True))
+        schema.add_column(dv.SeriesSchema(name='ramp_up_rate', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
+        schema.add_column(dv.SeriesSchema(name='ramp_down_rate', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.add_column(dv.SeriesSchema(name='scada_ramp_up_rate', data_type=np.float64),
                           optional=True)
         schema.add_column(dv.SeriesSchema(name='scada_ramp_down_rate', data_type=np.float64),
-- 
2.43.0


From d96952ae7a7b3dae57bff43d5a1410009d416a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:51 +0000
Subject: [PATCH 25/31] fix: reject loss shares above one

---
 src/nempy/markets.py                                 | 2 +-
 src/nempy/spot_market_backend/dataframe_validator.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index c974500..aac9836 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2290,7 +2290,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          minimum=0.0, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..668ddd9 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -62,6 +62,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_in_range(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -92,6 +93,12 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_in_range(self, series):
+        if self.min is not None and series.min() < self.min:
+            raise ColumnValues("Values less than {} not allowed in column '{}'.".format(self.min, self.name))
+        if self.max is not None and series.max() > self.max:
+            raise ColumnValues("Values greater than {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From 21002156d3092a99720ee94a1f74237b4fbfd615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:16 +0000
Subject: [PATCH 26/31] fix: raise when losses are set for interconnectors that
 do not exist

---
 src/nempy/markets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index aac9836..5512c0f 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2222,7 +2222,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2234,6 +2234,9 @@ class SpotMarket:
             self._validate_loss_functions(loss_functions)
             self._validate_interpolation_break_points(interpolation_break_points)
 
+        if not loss_functions['interconnector'].isin(self._decision_variables['interconnectors']['interconnector']).all():
+            raise ModelBuildError('Losses cannot be added to interconnectors because they do not exist yet.')
+
         self._interconnector_loss_shares = loss_functions.loc[:, ['interconnector', 'link', 'from_region_loss_share']]
 
         loss_functions = pd.merge(loss_functions,
-- 
2.43.0


From 456df454f272c3836c38d7439528e4ed313684dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:24 +0000
Subject: [PATCH 27/31] fix: reject generic constraints of unknown type

---
 src/nempy/markets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 5512c0f..e912778 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2385,11 +2385,10 @@ class SpotMarket:
         if violation_cost is not None:
             self.make_constraints_elastic('generic', violation_cost)
 
-    @staticmethod
-    def _validate_generic_constraint_parameters(generic_constraint_parameters):
+    def _validate_generic_constraint_parameters(self, generic_constraint_parameters):
         schema = dv.DataFrameSchema(name='generic_constraint_parameters', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
-        schema.add_column(dv.SeriesSchema(name='type', data_type=str))
+        schema.add_column(dv.SeriesSchema(name='type', data_type=str, allowed_values=self._allowed_constraint_types))
         schema.add_column(dv.SeriesSchema(name='rhs', data_type=np.float64, must_be_real_number=True))
         schema.validate(generic_constraint_parameters)
 
-- 
2.43.0


From b120b59ca1ad3f5e56c7b7cdd31aa119118510b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:32 +0000
Subject: [PATCH 28/31] fix: reject repeated sets and wrong types of violation
 cost

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e912778..7d76a6e 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2752,7 +2752,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
@@ -2765,7 +2765,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From d1e5dce4d40cb6cd62fc2294fcba4aeccb11aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:55 +0000
Subject: [PATCH 29/31] fix: FCAS availability counts the joint ramping
 constraints of bidirectional units

---
 src/nempy/markets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 7d76a6e..fab5c4f 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3810,7 +3810,8 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
-                                'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'joint_capacity',
+                                'energy_and_regulation_capacity', 'bidirectional_ramp_up',
                                 'bidirectional_ramp_down']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
-- 
2.43.0


From e3df0d240b55e608ef3c192f06ceef8af9157a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:15 +0000
Subject: [PATCH 30/31] fix: tied bids of bidirectional units share dispatch on
 both sides

---
 src/nempy/spot_market_backend/unit_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index 97184d2..de00238 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -572,7 +572,7 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     constraints['name'] = [make_id(*x) for x in zip(constraints['unit_x'], constraints['capacity_band_x'],
                                                     constraints['unit_y'], constraints['capacity_band_y'])]
 
-    constraints = constraints.drop_duplicates('name')
+    constraints = constraints.drop_duplicates(['name', 'dispatch_type'])
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From 64211b1fc03afa2ecc5167be97bd4baf489b685f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:30 +0000
Subject: [PATCH 31/31] fix: prices of markets with pairs of links but no
 losses respect the link direction

---
 src/nempy/markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index fab5c4f..7afebe0 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3097,7 +3097,7 @@ class SpotMarket:
 
         # Models with interconnectors use binary variables, the model needs to be linearised to allow for shadow prices
         # to be accessed and used to price constraints.
-        if 'interconnector_losses' in self._decision_variables:
+        if 'interconnectors' in self._decision_variables:
             si = self._get_linear_model(si)
         si.linear_mip_model.optimize()
 
@@ -3171,7 +3171,8 @@ class SpotMarket:
         self.objective_value = si.mip_model.objective_value
 
     def _get_linear_model(self, si):
-        self._remove_unused_interpolation_weights(si)
+        if 'interpolation_weights' in self._decision_variables:
+            self._remove_unused_interpolation_weights(si)
         self._disable_unused_link_pair(si)
         return si
 
-- 
2.43.0

