From 0329288cba30a91afe34074537998aa0c28b32ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 001/108] fix: two-sample charging steps were classified as
 discharging

When every increment of the charge counter is discarded as a jump (always the
case for a two-sample charging step) the remaining discharge trend decides the
direction, but the comparison was inverted.
---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c37bfdd..05a3280 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1353,7 +1353,7 @@ def step_is_chg_state(step_df, chg, indeterminate_step_charge=True):
     if np.isnan(avg_chg_delta) and np.isnan(avg_dchg_delta):
         is_charging = None
     elif np.isnan(avg_chg_delta):
-        is_charging = avg_dchg_delta > 0
+        is_charging = not avg_dchg_delta > 0
     elif np.isnan(avg_dchg_delta):
         is_charging = avg_chg_delta > 0
     else:
-- 
2.43.0


From 52519effb188c0d9974e4bf66ca5f6fe548f45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:46 +0000
Subject: [PATCH 002/108] fix: align charge_duration with cycle_index in the
 cycle summary

The duration series carried a positional index while the summary is indexed by
cycle_index, so durations were attributed to the wrong cycle whenever the cycle
indices do not run 0, 1, 2, ...
---
 beep/structure/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 05a3280..108c343 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -827,6 +827,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             pd.to_datetime(merged.date_time_iso_y, utc=True, errors="coerce"),
             pd.to_datetime(merged.date_time_iso_x, utc=True, errors="coerce"),
         )
+        time_diff.index = merged.cycle_index
         summary["charge_duration"] = np.round(
             time_diff / np.timedelta64(1, "s"), 2)
 
-- 
2.43.0


From e7def074b5dc03bf2312af4af96e01a53bea2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 003/108] fix: summarizing cycles left a scratch column in the
 raw data

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 108c343..c1bc825 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -852,7 +852,7 @@ class BEEPDatapath(abc.ABC, MSONable):
             )
 
         # Drop the time since cycle start column
-        self.raw_data.drop(columns=["time_since_cycle_start"])
+        self.raw_data.drop(columns=["time_since_cycle_start"], inplace=True)
 
         # Determine if any of the cycles has been paused
         summary["paused"] = self.raw_data.groupby("cycle_index").apply(
-- 
2.43.0


From e8119df7cd8da7f664d9cfdff46b6fd766f59612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 004/108] fix: an unstructured datapath was reported as
 structured after reloading

---
 beep/structure/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index c1bc825..438fd01 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -444,8 +444,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         datapath = cls(raw_data=raw_data, metadata=metadata, paths=paths, schema=schema)
         datapath._is_legacy = is_legacy
 
-        datapath.structured_data = pd.DataFrame(d["cycles_interpolated"])
-        datapath.structured_summary = pd.DataFrame(d["summary"])
+        structured_data = d["cycles_interpolated"]
+        structured_summary = d["summary"]
+        datapath.structured_data = structured_data if structured_data is None else pd.DataFrame(structured_data)
+        datapath.structured_summary = structured_summary if structured_summary is None else pd.DataFrame(
+            structured_summary)
 
         diagnostic_summary = d.get("diagnostic_summary")
         diagnostic_data = d.get("diagnostic_interpolated")
-- 
2.43.0


From 0d80d01316f80fce5ff4f3ffdf2915021fdf2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 005/108] fix: cycle life of a reloaded datapath was a row
 number, not a cycle index

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 438fd01..5ddfd5f 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1158,7 +1158,7 @@ class BEEPDatapath(abc.ABC, MSONable):
         if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
             cycle_life = self.structured_summary[
                 self.structured_summary.discharge_capacity < threshold * max_capacity
-            ].index[0]
+            ].cycle_index.iloc[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
             cycle_life = len(self.structured_summary) + 1
-- 
2.43.0


From 1cdcb21d6aa724ec0e8cab75af88245bbefa7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:26 +0000
Subject: [PATCH 006/108] fix: a charge that is constant voltage from its first
 sample lost its CV segment

---
 beep/structure/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 5ddfd5f..58d42c4 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1484,7 +1484,7 @@ def get_CV_segment_from_charge(charge, dt_tol=1, dVdt_tol=1e-5, dIdt_tol=1e-4):
             i = i+1
 
         # Filter for CV phase
-        return charge.loc[charge.test_time >= charge.test_time.iat[i-1]]
+        return charge.loc[charge.test_time >= charge.test_time.iat[max(i-1, 0)]]
 
 
 def get_CV_time(CV):
-- 
2.43.0


From 37425107e9b5dc8093716a310b7b24c2d383c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:04 +0000
Subject: [PATCH 007/108] fix: a file loaded by a relative path could not be
 saved and loaded again

---
 beep/structure/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/structure/cli.py b/beep/structure/cli.py
index df2e6b7..1d2de58 100644
--- a/beep/structure/cli.py
+++ b/beep/structure/cli.py
@@ -15,6 +15,7 @@
 
 """
 
+import os
 import re
 
 from monty.serialization import loadfn
@@ -115,5 +116,5 @@ def auto_load_processed(path):
 
         # Processed object must have path manually appended
         # as loadfn cannot trigger .from_json_file directly
-        processed_obj.paths["structured"] = path
+        processed_obj.paths["structured"] = os.path.abspath(path)
         return processed_obj
-- 
2.43.0


From c4bad4f276b9470bae27a265795beff0f7647474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 008/108] fix: Maccor counters carried over from the previous
 cycle into a last, unfinished step

---
 beep/structure/maccor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 84be1de..149715a 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -239,7 +239,12 @@ class MaccorDatapath(BEEPDatapathWithEIS):
         # Update any dangling step without an end
         last_index = quantity_agg.index[-1]
         if end_step_inds[-1] < last_index:
-            quantity_agg[begin_step_ind:] += cycle_sum
+            # The accumulator does not carry over into a new cycle
+            if (
+                data.loc[begin_step_ind - 1, "cycle_index"]
+                == data.loc[begin_step_ind, "cycle_index"]
+            ):
+                quantity_agg[begin_step_ind:] += cycle_sum
         return quantity_agg
 
     @staticmethod
-- 
2.43.0


From 066d70276bb1feaff1efcab40602cec7f9b04a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:36 +0000
Subject: [PATCH 009/108] fix: Indigo energies were Joules instead of
 Watt-hours

---
 beep/structure/indigo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 9e989ab..a009bea 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -71,12 +71,12 @@ class IndigoDatapath(BEEPDatapath):
                 abs(data.cell_coulomb_count_c) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_capacity"] = 0
-        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 1, "charge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 0, "charge_energy"] = 0
-        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = abs(
-            data.cell_energy_j
+        data.loc[data.half_cycle_count % 2 == 0, "discharge_energy"] = (
+                abs(data.cell_energy_j) / 3600
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_energy"] = 0
         data["internal_resistance"] = data.cell_voltage_v / data.cell_current_a
-- 
2.43.0


From 5a274902d071d1353b5912ed31712c58e6567c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:36 +0000
Subject: [PATCH 010/108] fix: Indigo runs had no test time and could not be
 structured

---
 beep/structure/indigo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index a009bea..5dcd9a1 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -80,6 +80,7 @@ class IndigoDatapath(BEEPDatapath):
         )
         data.loc[data.half_cycle_count % 2 == 1, "discharge_energy"] = 0
         data["internal_resistance"] = data.cell_voltage_v / data.cell_current_a
+        data["test_time"] = (data.system_time_us - data.system_time_us.min()) / 1e6
         data["date_time_iso"] = data["system_time_us"].apply(
             lambda x: datetime.utcfromtimestamp(x / 1000000)
             .replace(tzinfo=pytz.UTC)
-- 
2.43.0


From cb172eed8c90f7b1e19239f6b96e578f6962fbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:36 +0000
Subject: [PATCH 011/108] fix: Indigo columns were mislabelled unless ordered
 by type

---
 beep/structure/indigo.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/beep/structure/indigo.py b/beep/structure/indigo.py
index 5dcd9a1..026bc31 100644
--- a/beep/structure/indigo.py
+++ b/beep/structure/indigo.py
@@ -34,20 +34,19 @@ class IndigoDatapath(BEEPDatapath):
         d0 = hdf.get('time_series_data')
         d1 = np.array(d0.get('axis0'))
         d2 = np.array(d0.get('axis1'))
-        # d3 = np.array(d0.get('block0_items'))
+        d3 = np.array(d0.get('block0_items'))
         d4 = np.array(d0.get('block0_values'))
-        # d5 = np.array(d0.get('block1_items'))
+        d5 = np.array(d0.get('block1_items'))
         d6 = np.array(d0.get('block1_values'))
-        # d7 = np.array(d0.get('block2_items'))
+        d7 = np.array(d0.get('block2_items'))
         d8 = np.array(d0.get('block2_values'))
         d9 = np.concatenate((d4, d6, d8), axis=1)
         d10 = pd.DataFrame(d9)
         d11 = d10.set_axis(d2, axis="index")
-        d1_string = []
-        for i in d1:
-            j = i.decode("utf-8")
-            d1_string.append(j)
-        data = d11.set_axis(d1_string, axis="columns")
+        # Columns are stored in blocks by type, not in the order of the frame
+        d1_string = [i.decode("utf-8") for i in d1]
+        block_string = [i.decode("utf-8") for i in np.concatenate((d3, d5, d7))]
+        data = d11.set_axis(block_string, axis="columns")[d1_string]
         metadata = dict()
 
         if len(list(data["cell_id"].unique())) > 1:
-- 
2.43.0


From 9feb2f75c75401ad1b9a4c2ad696331618976e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:36 +0000
Subject: [PATCH 012/108] fix: Arbin time stamps were rounded to 128 seconds

---
 beep/conversion_schemas/arbin_conversion.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/conversion_schemas/arbin_conversion.yaml b/beep/conversion_schemas/arbin_conversion.yaml
index 98a7098..889d92b 100644
--- a/beep/conversion_schemas/arbin_conversion.yaml
+++ b/beep/conversion_schemas/arbin_conversion.yaml
@@ -39,7 +39,7 @@ data_columns:
 data_types:
   data_point: 'int32'
   test_time: 'float64'
-  datetime: 'float32'
+  datetime: 'float64'
   step_time: 'float32'
   step_index: 'int16'
   cycle_index: 'int32'
-- 
2.43.0


From 934d606f207dff54db2bc02f7bcc3abc4325053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:36 +0000
Subject: [PATCH 013/108] fix: Battery Archive step time of a last sample that
 starts a step

---
 beep/structure/battery_archive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/structure/battery_archive.py b/beep/structure/battery_archive.py
index 53999b7..285bb3d 100644
--- a/beep/structure/battery_archive.py
+++ b/beep/structure/battery_archive.py
@@ -85,7 +85,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
         start_times = df["test_time (s)"].loc[step_change_ix]
         arrays = [None] * len(step_change_ix)
 
-        final_ix = [df.shape[0] - 1]
+        final_ix = [df.shape[0]]
         step_change_ix_buffered = np.append(step_change_ix[1:], final_ix)
 
         for i, scix in enumerate(step_change_ix_buffered):
@@ -93,9 +93,7 @@ class BatteryArchiveDatapath(BEEPDatapath):
             n_repeats = scix - prev_scix
             arrays[i] = np.repeat(start_times.loc[prev_scix], n_repeats)
 
-        # include the final data point, which is not a real step change
         subtractor = np.concatenate(arrays, axis=0)
-        subtractor = np.append(subtractor, [subtractor[-1]])
 
         df["step_time"] = df["test_time (s)"] - subtractor
 
-- 
2.43.0


From a229bd6449b36102d14b449101daf2b0cd155f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:05 +0000
Subject: [PATCH 014/108] fix: Novonix test and step times were hours instead
 of seconds

---
 beep/structure/novonix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 3b20815..b7b76a5 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -79,6 +79,10 @@ class NovonixDatapath(BEEPDatapath):
         name_map = {i: map[i]['beep_name'] for i in map}
         data.rename(name_map, axis="columns", inplace=True)
 
+        # Novonix writes times in hours, BEEP uses seconds
+        for time_column in ("test_time", "step_time"):
+            data[time_column] = data[time_column] * 3600
+
         # Temperatures with unicode symbol do not work on windows with mapping
         data['Temperature (°C)'] = data['Temperature (°C)'].astype('float')
         data['Circuit Temperature (°C)'] = data[
-- 
2.43.0


From 1a9e0b73ac53b9eb2d09ae19c90c2e1127473e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:05 +0000
Subject: [PATCH 015/108] fix: Novonix discharge energy of cycles without a
 charge was computed from capacity

---
 beep/structure/novonix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index b7b76a5..71ad489 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -156,7 +156,7 @@ class NovonixDatapath(BEEPDatapath):
                 ix_range = data[data["cycle_index"] == cyc_ix].index
                 dchg_only_cycle_ix.append(cyc_ix)
                 for convention in ("capacity", "energy"):
-                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df["capacity"].max()
+                    data.loc[ix_range, f"cycle_chg_max_{convention}"] = cyc_df[convention].max()
         logger.warning(
             f"No charge steps found in cycles {dchg_only_cycle_ix}! "
             f"Using highest capacity reading to determine convention."
-- 
2.43.0


From 6de11716ce6773f8b3aab71f87beda52c10710c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:05 +0000
Subject: [PATCH 016/108] fix: Novonix metadata was attributed by phrases found
 in the values

---
 beep/structure/novonix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 71ad489..5272fed 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -52,13 +52,11 @@ class NovonixDatapath(BEEPDatapath):
 
                 # Rip metadata from summary section
                 if begin_summary and not end_summary:
-                    l = str(line)
+                    field, _, metadata_value = line.decode("utf-8").partition(":")
+                    metadata_value = metadata_value.strip()
                     for conversion_phrase in metadata_conversion:
-                        if conversion_phrase in l:
+                        if field.strip().startswith(conversion_phrase):
                             k = metadata_conversion[conversion_phrase]
-                            metadata_value = \
-                                l.split(":")[-1].strip(). \
-                                replace("\\n", "").replace("'", "")
                             metadata[k] = metadata_value if metadata_value else None
                             break
                 i += 1
-- 
2.43.0


From a5794c38ba91a10d44f031fee5d801aa991f8145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:14 +0000
Subject: [PATCH 017/108] fix: BioLogic cycle_index was ignored when it is the
 last column

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 91baba0..4310e8c 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -83,7 +83,7 @@ class BiologicDatapath(BEEPDatapath):
                 i += 1
                 if i == header_line:
                     header = str(line.decode(encoding=encoding))
-                    columns = header.split(sep)
+                    columns = header.rstrip("\r\n").split(sep)
                     for c in columns:
                         raw[c] = list()
                 if i >= data_starts_line:
-- 
2.43.0


From 1a1e9cbf5f53641ea0854babe2c146e17c0f97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:14 +0000
Subject: [PATCH 018/108] fix: BioLogic datapaths could not be saved because
 the protocol digest was bytes

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 4310e8c..1ce3f53 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -199,7 +199,7 @@ class BiologicDatapath(BEEPDatapath):
                 if flag_protocol_start:
                     if line == "":
                         flag_protocol = True
-                        protocol = hashlib.md5(protocol_text.encode()).digest()
+                        protocol = hashlib.md5(protocol_text.encode()).hexdigest()
                         metadata["protocol"] = protocol
                     else:
                         protocol_text += line + "\n"
-- 
2.43.0


From 4945c7f77f9f4fed48dd5942a2fb32b455a4a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:14 +0000
Subject: [PATCH 019/108] fix: BioLogic barcode of a run without a comment was
 the field name

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index 1ce3f53..b94e2c7 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -188,7 +188,7 @@ class BiologicDatapath(BEEPDatapath):
                     flag_cell_id = True
 
                 if "Comments" in line.strip().split(" : ")[0]:
-                    barcode = line.strip().split(" : ")[-1]
+                    barcode = line.partition(" : ")[2].strip()
                     metadata["barcode"] = barcode
                     flag_barcode = True
 
-- 
2.43.0


From 4d98d38105c883547c01fea93edcc5aeddd806a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:33 +0000
Subject: [PATCH 020/108] fix: Novonix rests reported the charged capacity as
 discharged

---
 beep/structure/novonix.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/structure/novonix.py b/beep/structure/novonix.py
index 5272fed..d4bcac1 100644
--- a/beep/structure/novonix.py
+++ b/beep/structure/novonix.py
@@ -171,6 +171,12 @@ class NovonixDatapath(BEEPDatapath):
             discharge_data = data[target_column].loc[ix]
             data.loc[ix, target_column] = cycle_metric_max - discharge_data
 
+        # Nothing is discharged while resting, rests hold what was discharged before
+        rest_ix = data["step_type_name"] == "rest"
+        for target_column in ("discharge_capacity", "discharge_energy"):
+            held = data[target_column].mask(rest_ix).groupby(data["cycle_index"]).ffill()
+            data.loc[rest_ix, target_column] = held[rest_ix].fillna(0.0)
+
         data.drop(columns=["cycle_chg_max_capacity", "cycle_chg_max_energy"],
                   inplace=True)
 
-- 
2.43.0


From 549aef9abb46696d6ddbeff3ae73214fa8ce1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:31 +0000
Subject: [PATCH 021/108] fix: BioLogic files whose last column is the time
 could not be loaded

---
 beep/structure/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/biologic.py b/beep/structure/biologic.py
index b94e2c7..8808288 100644
--- a/beep/structure/biologic.py
+++ b/beep/structure/biologic.py
@@ -91,7 +91,7 @@ class BiologicDatapath(BEEPDatapath):
                     if len(line) == 0:
                         empty_lines += 1
                         continue
-                    items = line.split(sep)
+                    items = line.rstrip("\r\n").split(sep)
                     for ci in range(len(items)):
                         column_name = columns[ci]
                         data_type = column_map.get(column_name, dict()).get(
-- 
2.43.0


From 55505b802bfa50feaaae536a14c7ef856c45250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 022/108] fix: Maccor impedance spectra could not be serialized

---
 beep/structure/base_eis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base_eis.py b/beep/structure/base_eis.py
index e69ed5f..499cad7 100644
--- a/beep/structure/base_eis.py
+++ b/beep/structure/base_eis.py
@@ -61,7 +61,7 @@ class EIS(MSONable):
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
             "data": self.data.to_dict("list"),
-            "metadata": self.metadata.to_dict()
+            "metadata": self.metadata.to_dict() if isinstance(self.metadata, pd.DataFrame) else dict(self.metadata)
         }
 
     @classmethod
@@ -77,7 +77,9 @@ class EIS(MSONable):
         """
         data = pd.DataFrame(d["data"])
         data = data.sort_index()
-        metadata = pd.DataFrame(d["metadata"])
+        metadata = d["metadata"]
+        if all(isinstance(v, dict) for v in metadata.values()):
+            metadata = pd.DataFrame(metadata)
         return cls(data, metadata)
 
 
-- 
2.43.0


From 5f93fd451d013bc169dc9fcb2924dd4b1192b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 023/108] fix: impedance spectra of a Maccor run could not be
 loaded

---
 beep/structure/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/structure/maccor.py b/beep/structure/maccor.py
index 149715a..352e225 100644
--- a/beep/structure/maccor.py
+++ b/beep/structure/maccor.py
@@ -162,7 +162,7 @@ class MaccorDatapath(BEEPDatapathWithEIS):
             paths = glob(eis_pattern)
 
         eis_runs = []
-        for path in tqdm.tqdm(paths, desc="Loading EIS files..."):
+        for path in tqdm(paths, desc="Loading EIS files..."):
             eis = self.MaccorEIS.from_file(path)
             eis_runs.append(eis)
 
-- 
2.43.0


From b0efebd8e18fafbdc968da24b2e3155bc6a5ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:16 +0000
Subject: [PATCH 024/108] fix: capacities at cycles failed for ranges that are
 not a multiple of the interval

---
 beep/structure/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 58d42c4..8de769f 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1178,11 +1178,11 @@ class BEEPDatapath(abc.ABC, MSONable):
         Returns:
             pandas.DataFrame:
         """
+        cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
         discharge_capacities = pd.DataFrame(
-            np.zeros((1, int((cycle_max - cycle_min) / cycle_interval)))
+            np.zeros((1, len(cycle_indices)))
         )
         counter = 0
-        cycle_indices = np.arange(cycle_min, cycle_max, cycle_interval)
         for cycle_index in cycle_indices:
             try:
                 discharge_capacities[counter] = self.structured_summary.discharge_capacity.iloc[
-- 
2.43.0


From 63c2cbf34b58f9edf8fa7f94465f73c245fa1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:09 +0000
Subject: [PATCH 025/108] fix: cycle life failed when the capacity ends exactly
 at the threshold

---
 beep/structure/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beep/structure/base.py b/beep/structure/base.py
index 8de769f..7a0ea09 100644
--- a/beep/structure/base.py
+++ b/beep/structure/base.py
@@ -1155,10 +1155,9 @@ class BEEPDatapath(abc.ABC, MSONable):
             max_capacity = 1.1
 
         # If capacity falls below 80% of initial capacity by end of run
-        if self.structured_summary.discharge_capacity.iloc[-1] / max_capacity <= threshold:
-            cycle_life = self.structured_summary[
-                self.structured_summary.discharge_capacity < threshold * max_capacity
-            ].cycle_index.iloc[0]
+        below_threshold = self.structured_summary.discharge_capacity / max_capacity <= threshold
+        if below_threshold.iloc[-1]:
+            cycle_life = self.structured_summary[below_threshold].cycle_index.iloc[0]
         else:
             # Some cells do not degrade below the threshold (low degradation rate)
             cycle_life = len(self.structured_summary) + 1
-- 
2.43.0


From 126aad3f3ed25f0d58ef1aee5fdf55cdb7c327aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 026/108] fix: discharge energy statistics were taken from the
 charge rows

---
 beep/features/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 6db4add..65c5209 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -188,9 +188,9 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
-            cycle_comp_1.step_type == "charge"].discharge_energy
+            cycle_comp_1.step_type == "discharge"].discharge_energy
         Ed10_1 = cycle_comp_0[
-            cycle_comp_0.step_type == "charge"].discharge_energy
+            cycle_comp_0.step_type == "discharge"].discharge_energy
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-- 
2.43.0


From fccdca70a48b021445582f57ee0bba013c61dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 027/108] fix: summary statistics were labelled wrongly when
 not requested in the default order

---
 beep/features/core.py | 60 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 65c5209..b6de1d7 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -151,7 +151,8 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         # TODO: extend this dataframe and uncomment energy features when
         #   structuring is refactored
-        X = pd.DataFrame(np.zeros((1, 28)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 4 * n_stats)))
 
         reg_cycle_comp_num = self.hyperparameters.get("cycle_comp_num")
         cycle_comp_1 = self.datapath.structured_data[
@@ -167,7 +168,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QcDiff = Qc100_1.values - Qc10_1.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.loc[0, 0:n_stats - 1] = self.get_summary_statistics(QcDiff)
 
         Qd100_1 = cycle_comp_1[
             cycle_comp_1.step_type == "discharge"].discharge_capacity
@@ -176,7 +177,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         QdDiff = Qd100_1.values - Qd10_1.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.loc[0, n_stats:2 * n_stats - 1] = self.get_summary_statistics(QdDiff)
 
         # # Charging Energy features
         Ec100_1 = cycle_comp_1[cycle_comp_1.step_type == "charge"].charge_energy
@@ -184,7 +185,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EcDiff = Ec100_1.values - Ec10_1.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.loc[0, 2 * n_stats:3 * n_stats - 1] = self.get_summary_statistics(EcDiff)
 
         # # Discharging Energy features
         Ed100_1 = cycle_comp_1[
@@ -194,7 +195,7 @@ class CycleSummaryStats(BEEPFeaturizer):
         EdDiff = Ed100_1.values - Ed10_1.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.loc[0, 3 * n_stats:4 * n_stats - 1] = self.get_summary_statistics(EdDiff)
 
         quantities = [
             "charging_capacity",
@@ -235,21 +236,23 @@ class CycleSummaryStats(BEEPFeaturizer):
 
         stats = []
 
-        if "var" in stats_names:
-            stats.append(np.log10(np.absolute(np.var(array))))
-        if "min" in stats_names:
-            stats.append(np.log10(np.absolute(min(array))))
-        if "mean" in stats_names:
-            stats.append(np.log10(np.absolute(np.mean(array))))
-        if "skew" in stats_names:
-            stats.append(np.log10(np.absolute(skew(array))))
-        if "kurtosis" in stats_names:
-            stats.append(np.log10(
-                np.absolute(kurtosis(array, fisher=False, bias=False))))
-        if "abs" in stats_names:
-            stats.append(np.log10(np.sum(np.absolute(array))))
-        if "square" in stats_names:
-            stats.append(np.log10(np.sum(np.square(array))))
+        # same order as the names, which become the column names
+        for name in stats_names:
+            if name == "var":
+                stats.append(np.log10(np.absolute(np.var(array))))
+            elif name == "min":
+                stats.append(np.log10(np.absolute(min(array))))
+            elif name == "mean":
+                stats.append(np.log10(np.absolute(np.mean(array))))
+            elif name == "skew":
+                stats.append(np.log10(np.absolute(skew(array))))
+            elif name == "kurtosis":
+                stats.append(np.log10(
+                    np.absolute(kurtosis(array, fisher=False, bias=False))))
+            elif name == "abs":
+                stats.append(np.log10(np.sum(np.absolute(array))))
+            elif name == "square":
+                stats.append(np.log10(np.sum(np.square(array))))
 
         return np.asarray(stats)
 
@@ -367,7 +370,8 @@ class DiagnosticSummaryStats(CycleSummaryStats):
 
         diag_intrp = self.datapath.diagnostic_data
 
-        X = pd.DataFrame(np.zeros((1, 54)))
+        n_stats = len(self.hyperparameters["statistics"])
+        X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
 
         # Calculate the cycles and the steps for the selected diagnostics
         cycles = diag_intrp.cycle_index[diag_intrp.cycle_type ==
@@ -414,7 +418,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QcDiff = Qc_1.values - Qc_0.values
         QcDiff = QcDiff[~np.isnan(QcDiff)]
 
-        X.loc[0, 0:6] = self.get_summary_statistics(QcDiff)
+        X.loc[0, 0:n_stats - 1] = self.get_summary_statistics(QcDiff)
 
         # Discharging Capacity features
         Qd_1 = diag_intrp.discharge_capacity[mask_pos_1_discharge]
@@ -422,7 +426,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         QdDiff = Qd_1.values - Qd_0.values
         QdDiff = QdDiff[~np.isnan(QdDiff)]
 
-        X.loc[0, 7:13] = self.get_summary_statistics(QdDiff)
+        X.loc[0, n_stats:2 * n_stats - 1] = self.get_summary_statistics(QdDiff)
 
         # Charging Energy features
         Ec_1 = diag_intrp.charge_energy[mask_pos_1_charge]
@@ -430,7 +434,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EcDiff = Ec_1.values - Ec_0.values
         EcDiff = EcDiff[~np.isnan(EcDiff)]
 
-        X.loc[0, 14:20] = self.get_summary_statistics(EcDiff)
+        X.loc[0, 2 * n_stats:3 * n_stats - 1] = self.get_summary_statistics(EcDiff)
 
         # Discharging Energy features
         Ed_1 = diag_intrp.discharge_energy[mask_pos_1_discharge]
@@ -438,7 +442,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         EdDiff = Ed_1.values - Ed_0.values
         EdDiff = EdDiff[~np.isnan(EdDiff)]
 
-        X.loc[0, 21:27] = self.get_summary_statistics(EdDiff)
+        X.loc[0, 3 * n_stats:4 * n_stats - 1] = self.get_summary_statistics(EdDiff)
 
         # Charging dQdV features
         dQdVc_1 = diag_intrp.charge_dQdV[mask_pos_1_charge]
@@ -446,7 +450,7 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVcDiff = dQdVc_1.values - dQdVc_0.values
         dQdVcDiff = dQdVcDiff[~np.isnan(dQdVcDiff)]
 
-        X.loc[0, 28:34] = self.get_summary_statistics(dQdVcDiff)
+        X.loc[0, 4 * n_stats:5 * n_stats - 1] = self.get_summary_statistics(dQdVcDiff)
 
         # Discharging Capacity features
         dQdVd_1 = diag_intrp.discharge_dQdV[mask_pos_1_discharge]
@@ -454,9 +458,9 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         dQdVdDiff = dQdVd_1.values - dQdVd_0.values
         dQdVdDiff = dQdVdDiff[~np.isnan(dQdVdDiff)]
 
-        X.loc[0, 35:41] = self.get_summary_statistics(dQdVdDiff)
+        X.loc[0, 5 * n_stats:6 * n_stats - 1] = self.get_summary_statistics(dQdVdDiff)
 
-        X.loc[0, 42:53], names = self.get_summary_diff(
+        X.loc[0, 6 * n_stats:6 * n_stats + 11], names = self.get_summary_diff(
             self.hyperparameters["diag_pos_list"]
         )
 
-- 
2.43.0


From 0463f2e5a8220cf13edf9d78a2b4940dfd91fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 028/108] fix: DeltaQFastCharge ignored n_nominal_cycles and
 overwrote it in the shared defaults

---
 beep/features/core.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index b6de1d7..21c52de 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -542,9 +542,6 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
-        self.hyperparameters[
-            "n_nominal_cycles"
-        ] = 40  # For nominal capacity, use median discharge capacity of first n cycles
 
         if "step_type" in self.datapath.structured_data.columns:
             interpolated_df = self.datapath.structured_data[
@@ -654,7 +651,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         )
         labels.append("internal_resistance_difference_cycles_2:100")
 
-        # Nominal capacity
+        # For nominal capacity, use median discharge capacity of first n cycles
         end = self.hyperparameters["n_nominal_cycles"]
         X[20] = np.median(summary.discharge_capacity.iloc[0: end])
         labels.append("nominal_capacity_by_median")
-- 
2.43.0


From 0464a14d90e2210568bfa7c7a30e11aa61cdb0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 029/108] fix: DeltaQFastCharge ignored init_pred_cycle

---
 beep/features/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 21c52de..21fb4b1 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -540,6 +540,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
         i_final = self.hyperparameters[
                       "final_pred_cycle"] - 1  # python indexing
         i_mid = self.hyperparameters["mid_pred_cycle"] - 1
+        i_init = self.hyperparameters["init_pred_cycle"] - 1
 
         summary = self.datapath.structured_summary
 
@@ -580,7 +581,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             interpolated_df.cycle_index == i_final
             ]
         Qd_10 = interpolated_df.discharge_capacity[
-            interpolated_df.cycle_index == 9]
+            interpolated_df.cycle_index == i_init]
 
         Qd_diff = Qd_final.values - Qd_10.values
 
-- 
2.43.0


From 523507aa431149e09819660f0ed66b0cffec1889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:11 +0000
Subject: [PATCH 030/108] fix: DeltaQFastCharge reported 0 instead of missing
 values without discharge data

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 21fb4b1..0905354 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -595,7 +595,7 @@ class DeltaQFastCharge(BEEPFeaturizer):
             X[9] = np.log10(np.abs(kurtosis(Qd_diff)))  # Kurtosis
             X[10] = np.log10(np.abs(Qd_diff[0]))  # First difference
         else:
-            X[5:11] = np.nan
+            X[list(range(5, 11))] = np.nan
 
         labels.append("abs_min_discharge_capacity_difference_cycles_2:100")
         labels.append("abs_mean_discharge_capacity_difference_cycles_2:100")
-- 
2.43.0


From d84c12aa5735235904d18a921ccabd945a5e3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 031/108] fix: DiagnosticProperties mixed all cycle types and
 metrics when locating the threshold

---
 beep/features/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/features/core.py b/beep/features/core.py
index 0905354..43dc489 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -828,6 +828,8 @@ class DiagnosticProperties(BEEPFeaturizer):
         filter_kinks = self.hyperparameters["filter_kinks"]
         extrapolate_threshold = self.hyperparameters["extrapolate_threshold"]
 
+        df = df[(df['cycle_type'] == cycle_type) & (df['metric'] == metric)]
+
         if filter_kinks:
             if np.any(df['fractional_metric'].diff().diff() < filter_kinks):
                 last_good_cycle = df[
-- 
2.43.0


From 4adf14c333e71c02c99c3b942057334a6350a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 032/108] fix: DiagnosticProperties did not raise its error
 when the threshold is not crossed

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 43dc489..e2281ea 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -844,7 +844,7 @@ class DiagnosticProperties(BEEPFeaturizer):
         # Logic around how to deal with cells that have not crossed threshold
         if df['fractional_metric'].min() > threshold and \
                 not extrapolate_threshold:
-            BEEPFeaturizationError(
+            raise BEEPFeaturizationError(
                 "DiagnosticProperties data has not crossed threshold "
                 "and extrapolation inaccurate"
             )
-- 
2.43.0


From 649fc870ef92c2ff32f48f859aa6d25549968d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 033/108] fix: DiagnosticProperties failed with a single
 interpolation axis

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index e2281ea..11062af 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -891,7 +891,7 @@ class DiagnosticProperties(BEEPFeaturizer):
             crossing_array = abs(f_axis[indx](x_linspace) - threshold)
             x_to_threshold.append(x_linspace[np.argmin(crossing_array)])
 
-        if ~(x_to_threshold[0] > 0) or ~(x_to_threshold[1] > 0):
+        if any(~(x > 0) for x in x_to_threshold):
             raise BEEPFeaturizationError(
                 "DiagnosticProperties data does not have a positive value "
                 "to threshold"
-- 
2.43.0


From 76ec65229b263a120b06db73a25ae0970ccf9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 034/108] fix: ExclusionCriteria produced two feature rows when
 the last diagnostic is discarded

---
 beep/features/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 11062af..17c7011 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -995,7 +995,7 @@ class ExclusionCriteria(BEEPFeaturizer):
 
         if fractional_capacity_at_EOT.iloc[0] > 1:
             fractional_capacity_at_EOT = diag_fractional_quantity_remaining["fractional_metric"].fillna(
-                method='ffill').iloc[-2:]
+                method='ffill').iloc[-2:].iloc[:1]
 
         threshold = self.hyperparameters["EOL_conditions"]["threshold"]
         fractional_capacity_at_EOT_criteria = fractional_capacity_at_EOT.map(lambda x: x < threshold)
-- 
2.43.0


From aac44391e9c83bf2d160249d2fc10fac19b1b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:54 +0000
Subject: [PATCH 035/108] fix: diagnostic featurizers removed rows from the run
 they were given

---
 beep/features/core.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 17c7011..0841a45 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import pandas as pd
 from scipy.stats import skew, kurtosis
@@ -41,25 +43,27 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
     def create_features(self):
         # Filter out low cycle numbers at the end of the test, corresponding to the "final" diagnostic
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # on a shallow copy, so that the run itself keeps all of its data
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
 
         hppc_r = pd.DataFrame()
         # the 9 by 6 dataframe
         df_dr = featurizer_helpers.get_dr_df(
-            self.datapath, self.hyperparameters["diag_pos"]
+            datapath, self.hyperparameters["diag_pos"]
         )
         # transform this dataframe to be 1 by 54
         columns = df_dr.columns
@@ -70,14 +74,14 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # the variance of ocv features
         hppc_ocv = featurizer_helpers.get_hppc_ocv(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             parameters_path=self.hyperparameters["parameters_path"]
         )
 
         # the v_diff features
         v_diff = featurizer_helpers.get_v_diff(
-            self.datapath,
+            datapath,
             self.hyperparameters["diag_pos"],
             self.hyperparameters["soc_window"],
             self.hyperparameters["parameters_path"]
@@ -358,17 +362,19 @@ class DiagnosticSummaryStats(CycleSummaryStats):
         """
         # Filter out "final" diagnostic cycles that have been appended to the end of the file with the wrong
         # cycle number(test time is monotonic)
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data[
-            ~((self.datapath.diagnostic_data.test_time > self.hyperparameters[
+        # on a shallow copy, so that the run itself keeps all of its data
+        datapath = copy.copy(self.datapath)
+        datapath.diagnostic_data = datapath.diagnostic_data[
+            ~((datapath.diagnostic_data.test_time > self.hyperparameters[
                 'test_time_filter_sec']) &
-              (self.datapath.diagnostic_data.cycle_index < self.hyperparameters[
+              (datapath.diagnostic_data.cycle_index < self.hyperparameters[
                   'cycle_index_filter']))
         ]
-        self.datapath.diagnostic_data = self.datapath.diagnostic_data.groupby(
+        datapath.diagnostic_data = datapath.diagnostic_data.groupby(
             ["cycle_index", "step_index", "step_index_counter"]
         ).filter(lambda x: ~x["test_time"].isnull().all())
 
-        diag_intrp = self.datapath.diagnostic_data
+        diag_intrp = datapath.diagnostic_data
 
         n_stats = len(self.hyperparameters["statistics"])
         X = pd.DataFrame(np.zeros((1, 6 * n_stats + 12)))
@@ -378,13 +384,13 @@ class DiagnosticSummaryStats(CycleSummaryStats):
                                         self.hyperparameters[
                                             "diagnostic_cycle_type"]].unique()
         step_dict_0 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][0],
             parameters_path=self.hyperparameters["parameters_path"]
         )
         step_dict_1 = featurizer_helpers.get_step_index(
-            self.datapath,
+            datapath,
             cycle_type=self.hyperparameters["diagnostic_cycle_type"],
             diag_pos=self.hyperparameters["diag_pos_list"][1],
             parameters_path=self.hyperparameters["parameters_path"]
-- 
2.43.0


From f72d66bf613bc3cf2e98e04d004732391fe71441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 036/108] fix: HPPC voltage differences used the steps of the
 second diagnostic for every diagnostic

---
 beep/features/featurizer_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 257d1c6..19a5043 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -254,7 +254,8 @@ def get_v_diff(processed_cycler_run, diag_pos, soc_window, parameters_path=PROTO
     hppc_data_1 = hppc_data_1.loc[hppc_data_1.discharge_capacity < 8]
 
     step_ind_1 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=0, parameters_path=parameters_path)
-    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=1, parameters_path=parameters_path)
+    step_ind_2 = get_step_index(processed_cycler_run, cycle_type="hppc", diag_pos=diag_pos,
+                                parameters_path=parameters_path)
 
     hppc_data_2_d = hppc_data_2.loc[hppc_data_2.step_index == step_ind_2["hppc_discharge_to_next_soc"]]
     hppc_data_1_d = hppc_data_1.loc[hppc_data_1.step_index == step_ind_1["hppc_discharge_to_next_soc"]]
-- 
2.43.0


From eb0005c36560be3859dbc04508549b1cb07401ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 037/108] fix: HPPC diffusion features ignored the parameters
 directory

---
 beep/features/core.py               | 4 +++-
 beep/features/featurizer_helpers.py | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/beep/features/core.py b/beep/features/core.py
index 0841a45..2e6f458 100644
--- a/beep/features/core.py
+++ b/beep/features/core.py
@@ -57,7 +57,9 @@ class HPPCResistanceVoltageFeatures(BEEPFeaturizer):
 
         # diffusion features
         diffusion_features = featurizer_helpers.get_diffusion_features(
-            datapath, self.hyperparameters["diag_pos"]
+            datapath,
+            self.hyperparameters["diag_pos"],
+            parameters_path=self.hyperparameters["parameters_path"]
         )
 
         hppc_r = pd.DataFrame()
diff --git a/beep/features/featurizer_helpers.py b/beep/features/featurizer_helpers.py
index 19a5043..3826e52 100644
--- a/beep/features/featurizer_helpers.py
+++ b/beep/features/featurizer_helpers.py
@@ -392,7 +392,7 @@ def get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path=PROTOCOL
     return result
 
 
-def get_diffusion_features(processed_cycler_run, diag_pos):
+def get_diffusion_features(processed_cycler_run, diag_pos, parameters_path=PROTOCOL_PARAMETERS_DIR):
     """
     This method calculates changes in diffusion coefficient between a specified hppc cycle and the first one at
     different state of charge.
@@ -406,8 +406,8 @@ def get_diffusion_features(processed_cycler_run, diag_pos):
         a dataframe contains 8 normalized slope changes.
 
     """
-    df_0 = get_diffusion_coeff(processed_cycler_run, 0)
-    df = get_diffusion_coeff(processed_cycler_run, diag_pos)
+    df_0 = get_diffusion_coeff(processed_cycler_run, 0, parameters_path)
+    df = get_diffusion_coeff(processed_cycler_run, diag_pos, parameters_path)
     result = (df - df_0)/(df_0)
     return result
 
-- 
2.43.0


From 320055fce4f6209bcbad3d009391e8bc3d9cbf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 038/108] fix: model dropped features by the threshold for
 samples

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 2024cf5..b965512 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -135,7 +135,7 @@ class BEEPLinearModelExperiment(MSONable):
             )
 
         # Form the clean feature matrix
-        X = X.dropna(axis=1, thresh=train_sample_drop_nan_thresh * X.shape[0])
+        X = X.dropna(axis=1, thresh=train_feature_drop_nan_thresh * X.shape[0])
         X = X.dropna(axis=0, thresh=train_sample_drop_nan_thresh * X.shape[1])
         X = self._impute_df(X, method=impute_strategy)
         self.impute_strategy = impute_strategy
-- 
2.43.0


From 4c5269f9c3e5bd517d6301d4ee9c9e66d74a6304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 039/108] fix: predicting with a model renamed the columns of
 the caller's feature matrix

---
 beep/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index b965512..a4deae3 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -446,6 +446,8 @@ class BEEPLinearModelExperiment(MSONable):
         """
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:-1]) for c in X.columns]
+        # the matrix belongs to the caller
+        X = X.copy()
         X.columns = cols_stripped
         return X
 
-- 
2.43.0


From d94833197d4c2ecd2e4f306fd3fb98824d34d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 040/108] fix: homogenizing features left one column per set of
 hyperparameters

---
 beep/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index a4deae3..910e82e 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -449,6 +449,11 @@ class BEEPLinearModelExperiment(MSONable):
         # the matrix belongs to the caller
         X = X.copy()
         X.columns = cols_stripped
+        if not X.columns.is_unique:
+            # samples featurized with different hyperparameters share one feature
+            X = pd.DataFrame({
+                c: X[[c]].bfill(axis=1).iloc[:, 0] for c in X.columns.unique()
+            })
         return X
 
     @staticmethod
-- 
2.43.0


From a19196ac89d3b3dd3643132df492a4d883e3ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 041/108] fix: extra features in a prediction matrix caused
 samples to be dropped

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 910e82e..4440744 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -353,7 +353,7 @@ class BEEPLinearModelExperiment(MSONable):
         X_old = copy.deepcopy(X)
         X = X[self.feature_labels].dropna(
             axis=0,
-            thresh=self.predict_sample_nan_thresh * X.shape[1]
+            thresh=self.predict_sample_nan_thresh * len(self.feature_labels)
         )
         X = self._impute_df(X, self.impute_strategy)
 
-- 
2.43.0


From b589662f06eef61fccddf7e3b5e2c8c3fccfd068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 042/108] fix: predict listed all samples as dropped

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 4440744..3b83ac1 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -359,7 +359,7 @@ class BEEPLinearModelExperiment(MSONable):
 
         dropped = []
         if X_old.shape[0] != X.shape[0]:
-            dropped = [s for s in X_old.index if s not in X]
+            dropped = [s for s in X_old.index if s not in X.index]
             logger.warning(
                 f"{len(dropped)} samples dropped due to nan sample threshold "
                 f"of {self.predict_sample_nan_thresh}. List of those dropped "
-- 
2.43.0


From 554c052ab68f37855743afb9491349fd3df3a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 043/108] fix: predict failed on infinite features, which
 training treats as missing

---
 beep/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/model.py b/beep/model.py
index 3b83ac1..a80b070 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -326,6 +326,7 @@ class BEEPLinearModelExperiment(MSONable):
             X = feature_matrix.matrix
         else:
             X = feature_matrix
+        X = X.replace([np.inf, -np.inf], np.nan)
 
         # make sure features will have the same names if homogenize features
         # even if featurizer' hyperparameters are different
-- 
2.43.0


From 774424bbd50564d487d524d5d9031450066011f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 044/108] fix: models could not be trained with the default
 number of iterations

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index a80b070..d8b30b1 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -100,7 +100,7 @@ class BEEPLinearModelExperiment(MSONable):
             drop_nan_training_targets: bool = False,
             impute_strategy: str = "median",
             kfold: int = 5,
-            max_iter: int = 1e6,
+            max_iter: int = 1000000,
             tol: float = 1e-4,
             # only relevant for elasticnet
             l1_ratio: Union[Tuple[float], List[float]] = (
-- 
2.43.0


From d349a09ac99a52f30b95f191b79ca0fdbb275b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 045/108] fix: ridge models could not be trained with alphas
 given as an array

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index d8b30b1..266537a 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -265,7 +265,7 @@ class BEEPLinearModelExperiment(MSONable):
 
             # Ridge has to have alphas set by hand as it has no
             # default alphas
-            if not kwargs["alphas"]:
+            if kwargs["alphas"] is None:
                 kwargs["alphas"] = (1e-3, 1e-2, 1e-1, 1, 10, 100, 1000)
         else:
             raise NotImplementedError(f"Unsupported model '{self.model_name}'")
-- 
2.43.0


From 6e3f501ac694d3ef2fe2e9cfe57a82ed66212a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:00 +0000
Subject: [PATCH 046/108] fix: a model loaded from file scaled features
 differently from the model that was saved

---
 beep/model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/beep/model.py b/beep/model.py
index 266537a..5b48ae6 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -519,6 +519,11 @@ class BEEPLinearModelExperiment(MSONable):
                 "intercept_": self.model.intercept_.tolist(),
                 "optimal_hyperparameters": self.optimal_hyperparameters,
             },
+            "scaler_sklearn": {
+                "mean_": self.scaler.mean_.tolist(),
+                "var_": self.scaler.var_.tolist(),
+                "scale_": self.scaler.scale_.tolist(),
+            },
 
         }
 
@@ -566,6 +571,10 @@ class BEEPLinearModelExperiment(MSONable):
         model.coef_ = np.asarray(model_params["coef_"])
         model.intercept_ = np.asarray(model_params["intercept_"])
         o.model = model
+
+        # The scaler the model was trained with
+        for attr, values in d.get("scaler_sklearn", {}).items():
+            setattr(o.scaler, attr, np.asarray(values))
         o.optimal_hyperparameters = model_params["optimal_hyperparameters"]
         return o
 
-- 
2.43.0


From c37c6030ad374335a1ec40d6e0409844770b02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 047/108] fix: a data splitter loaded from file had lost its
 exclusions and imputation

---
 beep/prediction/beep_data_splitter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 8d475da..9231748 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -223,6 +223,8 @@ class BEEPDataSplitter(MSONable):
         self.n_splits = n_splits
         self.random_state = random_state
         self.split_columns = split_columns
+        self.exclusion_columns = exclusion_columns
+        self.drop_split_threshold = drop_split_threshold
         self.datasets = None
 
     def split(self):
@@ -331,10 +333,13 @@ class BEEPDataSplitter(MSONable):
             "train_feature_drop_nan_thresh": self.train_feature_drop_nan_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_nan_thresh,
             "drop_nan_training_targets": self.drop_nan_training_targets,
+            "impute_strategy": self.impute_strategy,
             "homogenize_features": self.homogenize_features,
             "n_splits": self.n_splits,
             "random_state": self.random_state,
             "split_columns": self.split_columns,
+            "exclusion_columns": self.exclusion_columns,
+            "drop_split_threshold": self.drop_split_threshold,
             "datasets": [d.as_dict() for d in self.datasets]
         }
 
@@ -352,7 +357,10 @@ class BEEPDataSplitter(MSONable):
             homogenize_features=d["homogenize_features"],
             n_splits=d["n_splits"],
             random_state=d["random_state"],
-            split_columns=d["split_columns"]
+            split_columns=d["split_columns"],
+            impute_strategy=d.get("impute_strategy", "median"),
+            exclusion_columns=d.get("exclusion_columns"),
+            drop_split_threshold=d.get("drop_split_threshold", 0.5)
         )
 
         bds.datasets = [BEEPDataset.from_dict(dataset) for dataset in d["datasets"]]
-- 
2.43.0


From 5aa35062a9536960a3ccc144bba240551d9aba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 048/108] fix: samples of one group were split when the
 grouping column is also a feature

---
 beep/prediction/beep_data_splitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 9231748..fc9ffca 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -131,6 +131,8 @@ class BEEPDataSplitter(MSONable):
 
         retain_columns = features + (split_columns if split_columns is not None else []) + \
             (exclusion_columns if exclusion_columns is not None else []) 
+        # a feature can also be a column to split on
+        retain_columns = list(dict.fromkeys(retain_columns))
         X = self.feature_matrix.matrix[retain_columns]
         y = self.feature_matrix.matrix[targets]
 
-- 
2.43.0


From 55ceaf73b719ef429db2a24403d7c325204925bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:31 +0000
Subject: [PATCH 049/108] fix: homogenizing features for splitting left one
 column per set of hyperparameters

---
 beep/prediction/beep_data_splitter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index fc9ffca..4deceb6 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -298,6 +298,11 @@ class BEEPDataSplitter(MSONable):
         d = BEEPFeatureMatrix.OP_DELIMITER
         cols_stripped = [d.join(c.split(d)[:2]) for c in X.columns]
         X.columns = cols_stripped
+        if not X.columns.is_unique:
+            # samples featurized with different hyperparameters share one feature
+            X = pd.DataFrame({
+                c: X[[c]].bfill(axis=1).iloc[:, 0] for c in X.columns.unique()
+            })
         return X
 
     @staticmethod
-- 
2.43.0


From 2cb096ee83681e1cce634a6851a1c9631630e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:56 +0000
Subject: [PATCH 050/108] fix: features and targets of loaded datasets were in
 different orders

---
 beep/prediction/beep_data_splitter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beep/prediction/beep_data_splitter.py b/beep/prediction/beep_data_splitter.py
index 4deceb6..9491bb3 100644
--- a/beep/prediction/beep_data_splitter.py
+++ b/beep/prediction/beep_data_splitter.py
@@ -53,10 +53,12 @@ class BEEPDataset(MSONable):
 
     @classmethod
     def from_dict(cls, d):
-        dataset = cls(pd.DataFrame.from_dict(d["train_X"]), pd.DataFrame.from_dict(
-            d["train_y"]), pd.DataFrame.from_dict(d["test_X"]), pd.DataFrame.from_dict(d["test_y"]))
-
-        return dataset
+        # a column of its own keeps the order of the samples; DataFrame.from_dict sorts them if there is one column
+        frames = [
+            pd.DataFrame({column: pd.Series(values) for column, values in d[key].items()})
+            for key in ("train_X", "train_y", "test_X", "test_y")
+        ]
+        return cls(*frames)
 
 
 class BEEPDataSplitter(MSONable):
-- 
2.43.0


From 5b218394bc98000adf5c725d729d163b1ebdb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:03 +0000
Subject: [PATCH 051/108] fix: procedures of a single step could not be written

---
 beep/protocol/maccor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 511c3e6..050c1ae 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -69,7 +69,9 @@ class Procedure(DashOrderedDict):
                 formatting used in the maccor procedure files.
         """
         formatted = deepcopy(self)
-        for step in formatted["MaccorTestProcedure"]["ProcSteps"]["TestStep"]:
+        steps = formatted["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
+        # A single step is not read as a list
+        for step in steps if isinstance(steps, list) else [steps]:
             # print(json.dumps(step['StepType'], indent=2))
             while len(step["StepType"]) < 8:
                 step["StepType"] = step["StepType"].center(8)
-- 
2.43.0


From 493fa3125c115ed5e99694540e6e907e96336cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:03 +0000
Subject: [PATCH 052/108] fix: procedures were not written in the requested
 encoding

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 050c1ae..a49c928 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -142,7 +142,7 @@ class Procedure(DashOrderedDict):
         contents = "\n".join([line0, line1, remainder])
         contents = self.fixup_empty_elements(contents)
         contents += "\n"
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding=encoding) as f:
             f.write(contents)
 
     @staticmethod
-- 
2.43.0


From 7a64f0277c11b64c1520d3042c0d8d084f313ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 053/108] fix: driving procedures ignored the discharge rest
 and the diagnostic intervals

---
 beep/protocol/maccor.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index a49c928..0cfc411 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -463,6 +463,22 @@ class Procedure(DashOrderedDict):
             round(reg_param["discharge_cutoff_voltage"], 3)
         )
 
+        return self.insert_rest_and_loop_regcyclev2(discharge_idx, reg_param)
+
+    def insert_rest_and_loop_regcyclev2(self, discharge_idx, reg_param):
+        """
+        Inserts the rest after discharge and the number of repeats of the
+        regular cycle into procedure dictionary for the discharge at given id.
+
+        Args:
+            discharge_idx (int):
+            reg_param (pandas.DataFrame):
+
+        Returns:
+            dict:
+        """
+        steps = self["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
+
         # Regular cycle rest after discharge
         step_idx = discharge_idx + 1
         assert steps[step_idx]["StepType"] == "Rest"
@@ -664,12 +680,14 @@ class Procedure(DashOrderedDict):
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 27 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_rest_and_loop_regcyclev2(reg_discharge_idx, reg_param)
 
         # Start of main loop of regular cycles
         reg_charge_idx = 59 + 1
         obj.insert_charge_regcyclev3(reg_charge_idx, reg_param)
         reg_discharge_idx = 59 + 5
         obj.insert_maccor_waveform(reg_discharge_idx, waveform_name)
+        obj.insert_rest_and_loop_regcyclev2(reg_discharge_idx, reg_param)
 
         # Storage cycle
         reg_storage_idx = 93
-- 
2.43.0


From 7af1f43c7d4d9c456a4400bec70c20b9c67dd87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 054/108] fix: generating a charging procedure changed the
 parameters it was given

---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 0cfc411..c85b821 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -768,6 +768,7 @@ class Procedure(DashOrderedDict):
         obj.insert_resistance_regcyclev2(dc_idx, reg_param)
 
         # Set variables necessary to use regcyclev3 function
+        reg_param = reg_param.copy()
         reg_param["charge_constant_current_1"] = 1
         reg_param["charge_constant_current_2"] = reg_param["charge_current_param_4"]
         reg_param["charge_percent_limit_1"] = reg_param["charge_fast_soc_limit"]
-- 
2.43.0


From 9b5a3d72fd05839f485bc1c06f970da9111b5672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 055/108] fix: waveforms in directories with a dot in their
 path were inserted under a wrong name

---
 beep/protocol/maccor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index c85b821..33cba6b 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -333,8 +333,7 @@ class Procedure(DashOrderedDict):
 
         assert steps[waveform_idx]["StepType"] == "FastWave"
         assert waveform_filename.split(".")[-1].lower() == "mwf"
-        local_name = waveform_filename.split(".")[0]
-        _, local_name = os.path.split(local_name)
+        local_name, _ = os.path.splitext(os.path.basename(waveform_filename))
         assert len(local_name) < 25, str(len(local_name))
 
         steps[waveform_idx]["StepValue"] = local_name
-- 
2.43.0


From 3ad2a1e694db2af8fdd86fc9752598232c7850e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 056/108] fix: steps with a single end condition kept their
 limit for the ending diagnostic

---
 beep/protocol/maccor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 33cba6b..c26faaa 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1337,8 +1337,9 @@ class Procedure(DashOrderedDict):
         steps = self['MaccorTestProcedure']['ProcSteps']['TestStep']
 
         for step in steps:
-            if step['Ends'] is not None and isinstance(step['Ends']['EndEntry'], list):
-                for end in step['Ends']['EndEntry']:
+            if step['Ends'] is not None:
+                ends = step['Ends']['EndEntry']
+                for end in ends if isinstance(ends, list) else [ends]:
                     if end['Step'] == step_key and end['EndType'] == 'Voltage' and end['Oper'] == '>=':
                         end['Value'] = max_v
                         if new_step_key:
-- 
2.43.0


From b0a9d02e9d1d2fc9c140613bf859a302ffcce547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:12 +0000
Subject: [PATCH 057/108] fix: step times of a day or more lost their days

---
 beep/protocol/maccor.py | 77 +++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index c26faaa..19b8f37 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -17,7 +17,6 @@ input parameters and procedure templates
 """
 
 import os
-import time
 from copy import deepcopy
 
 import numpy as np
@@ -29,6 +28,22 @@ from beep.utils import DashOrderedDict
 from beep.utils.waveform import convert_velocity_to_power_waveform, RapidChargeWave
 
 
+def format_step_time(seconds):
+    """
+    Helper function to format a duration as hours, minutes and seconds. The
+    number of hours may exceed a day.
+
+    Args:
+        seconds (float): duration in seconds
+
+    Returns:
+        str: duration as HH:MM:SS
+    """
+    minutes, seconds = divmod(int(seconds), 60)
+    hours, minutes = divmod(minutes, 60)
+    return "{:02d}:{:02d}:{:02d}".format(hours, minutes, seconds)
+
+
 class Procedure(DashOrderedDict):
     """
     Procedure file object. Provides factory methods
@@ -393,9 +408,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle constant current charge part 2
         step_idx = charge_idx + 1
@@ -419,18 +432,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -483,9 +492,7 @@ class Procedure(DashOrderedDict):
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["discharge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle number of times to repeat regular cycle for initial offset and main body
         step_idx = discharge_idx + 3
@@ -538,9 +545,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -834,9 +839,7 @@ class Procedure(DashOrderedDict):
         assert steps[rest_idx]["StepType"] == "Rest"
         assert steps[rest_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(3 * 3600 + offset_seconds * (index % 96)))
-        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[rest_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -871,9 +874,7 @@ class Procedure(DashOrderedDict):
                 / reg_param["charge_constant_current_1"]
             )
         )
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[step_idx]["Ends"]["EndEntry"][1]["Value"] != 4.4
         steps[step_idx]["Ends"]["EndEntry"][1]["Value"] = float(
             round(reg_param["charge_cutoff_voltage"], 3)
@@ -901,18 +902,14 @@ class Procedure(DashOrderedDict):
         steps[step_idx]["StepValue"] = reg_param["charge_cutoff_voltage"]
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_constant_voltage_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Regular cycle rest at top of charge
         step_idx = charge_idx + 3
         assert steps[step_idx]["StepType"] == "Rest"
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * reg_param["charge_rest_time"]))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -952,9 +949,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[step_idx]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * 12))
-        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[step_idx]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         return self
 
@@ -1121,9 +1116,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 2]["StepType"] == "Rest"
         assert steps[start + 2]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(60 * diagnostic_params["HPPC_rest_time"]))
-        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 2]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Discharge step 1 for hppc cycle
         assert steps[start + 3]["StepType"] == "Dischrge"
@@ -1133,9 +1126,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 3]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_1"]
-        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 3]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 3]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 3]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
@@ -1145,9 +1136,7 @@ class Procedure(DashOrderedDict):
         assert steps[start + 4]["StepType"] == "Rest"
         assert steps[start + 4]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = int(round(diagnostic_params["HPPC_pulse_rest_time"]))
-        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(time_s)
-        )
+        steps[start + 4]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
 
         # Charge step 1 for hppc cycle
         assert steps[start + 5]["StepType"] == "Charge"
@@ -1157,9 +1146,7 @@ class Procedure(DashOrderedDict):
         )
         assert steps[start + 5]["Ends"]["EndEntry"][0]["EndType"] == "StepTime"
         time_s = diagnostic_params["HPPC_pulse_duration_2"]
-        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 5]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 5]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 5]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["HPPC_pulse_cutoff_voltage"], 3)
@@ -1183,9 +1170,7 @@ class Procedure(DashOrderedDict):
                 - 1
             )
         )
-        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = time.strftime(
-            "%H:%M:%S", time.gmtime(float(time_s))
-        )
+        steps[start + 6]["Ends"]["EndEntry"][0]["Value"] = format_step_time(time_s)
         assert steps[start + 6]["Ends"]["EndEntry"][1]["EndType"] == "Voltage"
         steps[start + 6]["Ends"]["EndEntry"][1]["Value"] = float(
             round(diagnostic_params["diagnostic_discharge_cutoff_voltage"], 3)
-- 
2.43.0


From abd6112ad8e94c28ab57b319ace470b534b60a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 058/108] fix: generating a driving waveform changed the
 default waveform configuration

---
 beep/protocol/maccor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 19b8f37..1878c70 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1349,7 +1349,7 @@ def insert_driving_parametersv1(reg_params, waveform_directory=None):
             power_scaling (float): Power relative to the other profiles
         waveform_directory (str): path to save waveform files
     """
-    mwf_config = MACCOR_WAVEFORM_CONFIG
+    mwf_config = dict(MACCOR_WAVEFORM_CONFIG)
     velocity_name = reg_params["discharge_profile"] + "_velocity_waveform.txt"
     velocity_file = os.path.join(PROTOCOL_SCHEMA_DIR, velocity_name)
     df = convert_velocity_to_power_waveform(velocity_file, velocity_units="mph")
-- 
2.43.0


From 84ebf5633581ff8f3ccf2ac5927b29086a84327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 059/108] fix: writing a waveform file changed the waveform it
 was given

---
 beep/protocol/maccor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beep/protocol/maccor.py b/beep/protocol/maccor.py
index 1878c70..0ff0fdc 100644
--- a/beep/protocol/maccor.py
+++ b/beep/protocol/maccor.py
@@ -1477,6 +1477,7 @@ def generate_maccor_waveform_file(df, file_prefix, file_directory, mwf_config=No
     if mwf_config is None:
         mwf_config = MACCOR_WAVEFORM_CONFIG
 
+    df = df.copy()
     if "power" in df.columns:
         df["power"] = df["power"] / max(abs(df["power"])) * mwf_config["value_scale"]
         df["step_counter"] = df["power"].diff().fillna(0).ne(0).cumsum()
-- 
2.43.0


From 228221028bf0207ad046fdcb019e26bbad16aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:38 +0000
Subject: [PATCH 060/108] fix: overlapping charging windows were accepted and
 their currents added

---
 beep/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/waveform.py b/beep/utils/waveform.py
index de13813..cf754aa 100644
--- a/beep/utils/waveform.py
+++ b/beep/utils/waveform.py
@@ -103,7 +103,7 @@ class RapidChargeWave:
         np.array: array with the multistep current as a function of the uniform time basis
         np.array: array with the corresponding uniformly spaced time values
         """
-        assert np.all(np.diff(mesh_points)) > 0
+        assert np.all(np.diff(mesh_points) > 0)
         current_smooth, time_smooth, current_multistep, time_multistep = \
             self.get_input_currents_both_to_final_soc(charging_c_rates, mesh_points)
         end_time_smooth = int(np.round(np.max(time_smooth), 0))
-- 
2.43.0


From 97951b6574ee4e6e33e4df852d3d706406d960bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 061/108] fix: schedules with brackets in a value could not be
 read

---
 beep/protocol/arbin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 3544b83..d777c68 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -59,7 +59,8 @@ class Schedule(DashOrderedDict):
             text = f.read()
             text = text.decode(encoding)
 
-        split_text = re.split(r"\[(.+)\]", text)
+        # Section headings are lines of their own, values may contain brackets
+        split_text = re.split(r"(?<![^\r\n])\[([^\r\n]+)\][ \t]*(?![^\r\n])", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
             body_lines = re.split(r"[\r\n]+", body.strip())
             body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
-- 
2.43.0


From 7bc4819ec8571bc5e4bc18086027aab59f3e7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 062/108] fix: trailing blanks were lost from the last value of
 a schedule section

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index d777c68..1ae0626 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -62,7 +62,7 @@ class Schedule(DashOrderedDict):
         # Section headings are lines of their own, values may contain brackets
         split_text = re.split(r"(?<![^\r\n])\[([^\r\n]+)\][ \t]*(?![^\r\n])", text)
         for heading, body in zip(split_text[1::2], split_text[2::2]):
-            body_lines = re.split(r"[\r\n]+", body.strip())
+            body_lines = re.split(r"[\r\n]+", body.strip("\r\n"))
             body_dict = OrderedDict([line.split("=", 1) for line in body_lines])
             heading = heading.replace("_", ".")
             obj.set(heading, body_dict)
-- 
2.43.0


From e7cd20bf430170522f32606368e8749198e77d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 063/108] fix: schedules with a limit set to a number could not
 be written

---
 beep/protocol/arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/arbin.py b/beep/protocol/arbin.py
index 1ae0626..d51f10d 100644
--- a/beep/protocol/arbin.py
+++ b/beep/protocol/arbin.py
@@ -100,7 +100,7 @@ class Schedule(DashOrderedDict):
         for section_title, body_data in data_tuples:
             section_header = "[{}]".format(section_title)
             body = linesep.join(
-                ["=".join([key, value]) for key, value in body_data.items()]
+                ["=".join([key, str(value)]) for key, value in body_data.items()]
             )
             blocks.append(linesep.join([section_header, body]))
         contents = linesep.join(blocks) + linesep
-- 
2.43.0


From c0b5248a88f255d317281f52b83f613e187cba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 064/108] fix: settings that mention a technique in their
 metadata were misread

---
 beep/protocol/biologic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 83f545f..cf49ab0 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -65,7 +65,7 @@ class Settings(DashOrderedDict):
 
         extra_lines = list(range(len(split_text)))
         technique_lines = [
-            indx for indx, val in enumerate(split_text) if "Technique" in val
+            indx for indx, val in enumerate(split_text) if re.match(r"Technique : \d+\s*$", val)
         ]
         technique_pos = []
         for technique_start_line in technique_lines:
@@ -83,7 +83,7 @@ class Settings(DashOrderedDict):
         metadata = []
         for line_num in lines_to_parse:
             if ":" in split_text[line_num]:
-                if "Technique" in split_text[line_num]:
+                if line_num in technique_lines:
                     metadata.append(
                         [
                             "_".join(split_text[line_num].split(" : ", 1)),
@@ -150,7 +150,7 @@ class Settings(DashOrderedDict):
         blocks = []
         meta_data_keys = list(data["Metadata"].keys())
         for indx, meta_key in enumerate(meta_data_keys):
-            if "Technique_" in meta_key:
+            if re.match(r"Technique_\d+$", meta_key):
                 blocks.append(
                     " : ".join([meta_key.split("_")[0], data["Metadata"][meta_key]])
                 )
-- 
2.43.0


From 8ae3827f37c9df3c2173a1c421017769a4f682bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 065/108] fix: settings with several techniques repeated the
 first ones in their metadata

---
 beep/protocol/biologic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index cf49ab0..0a56991 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -75,13 +75,13 @@ class Settings(DashOrderedDict):
             )  # This +1 offset is based on the format seen in one file
             end = start + step_entry_length
             technique_pos.append((technique_num, start, end))
-            lines_to_parse = [
+            extra_lines = [
                 i for i in extra_lines if i not in list(range(start, end))
             ]
 
         section = "Metadata"
         metadata = []
-        for line_num in lines_to_parse:
+        for line_num in extra_lines:
             if ":" in split_text[line_num]:
                 if line_num in technique_lines:
                     metadata.append(
-- 
2.43.0


From 49f5e00d846283896638fbddbdc17910e1abd282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 066/108] fix: settings with a metadata line containing a colon
 could not be read

---
 beep/protocol/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 0a56991..9b25fd8 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -82,7 +82,7 @@ class Settings(DashOrderedDict):
         section = "Metadata"
         metadata = []
         for line_num in extra_lines:
-            if ":" in split_text[line_num]:
+            if " : " in split_text[line_num]:
                 if line_num in technique_lines:
                     metadata.append(
                         [
-- 
2.43.0


From 4b4ba350ce1f97748225335d8c23324bf65f7954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 067/108] fix: settings lost the fields that a metadata value
 is the path of when written

---
 beep/protocol/biologic.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 9b25fd8..d5685ee 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -172,7 +172,6 @@ class Settings(DashOrderedDict):
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
             blocks.append(line)
-            data.unset(data["Metadata"][meta_key])
 
         contents = linesep.join(blocks)
 
-- 
2.43.0


From 149ef3a3e661cba1772aae92db3cc8749a1af48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 068/108] fix: metadata with the value blank was written as an
 empty line

---
 beep/protocol/biologic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index d5685ee..3defb5d 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -167,7 +167,7 @@ class Settings(DashOrderedDict):
                 continue
             elif data["Metadata"][meta_key] is None:
                 line = meta_key
-            elif data["Metadata"][meta_key] == "blank":
+            elif re.match(r"line\d+$", meta_key) and data["Metadata"][meta_key] == "blank":
                 line = ""
             elif data["Metadata"][meta_key] is not None:
                 line = " : ".join([meta_key, data["Metadata"][meta_key]])
-- 
2.43.0


From 86d1b0579ae63549d796eb739b8c1aca027320b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:31 +0000
Subject: [PATCH 069/108] fix: metadata lines with the same name were merged
 into one

---
 beep/protocol/biologic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/biologic.py b/beep/protocol/biologic.py
index 3defb5d..310fc2c 100644
--- a/beep/protocol/biologic.py
+++ b/beep/protocol/biologic.py
@@ -81,6 +81,7 @@ class Settings(DashOrderedDict):
 
         section = "Metadata"
         metadata = []
+        names = set()
         for line_num in extra_lines:
             if " : " in split_text[line_num]:
                 if line_num in technique_lines:
@@ -91,7 +92,10 @@ class Settings(DashOrderedDict):
                         ]
                     )
                 else:
-                    metadata.append(split_text[line_num].split(" : ", 1))
+                    name, value = split_text[line_num].split(" : ", 1)
+                    # Only the first of several lines with the same name is kept by name
+                    metadata.append([split_text[line_num], None] if name in names else [name, value])
+                    names.add(name)
             elif split_text[line_num] == "":
                 metadata.append(["line{}".format(line_num), "blank"])
             else:
-- 
2.43.0


From 42108b1f9231c2bcdc53ed852a6c1a9943d7c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 070/108] fix: Maccor loop that starts at the first or second
 step

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 2a10fe4..33f5f38 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -125,7 +125,7 @@ class ProcedureToSchedule:
             if "Loop" in step["StepType"]:
                 loop_counter = int(re.search(r"\d+", step["StepType"]).group())
                 i = 1
-                while (indx - i) > 1:
+                while (indx - i) >= 0:
                     if self.procedure_dict_steps[abs(indx - i)][
                         "StepType"
                     ] == "Do {}".format(loop_counter):
-- 
2.43.0


From bd19fdf296bdfa501e3c7272dc5e06f171797463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 071/108] fix: converting a Maccor procedure leaves it
 unchanged

---
 beep/protocol/maccor_to_arbin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 33f5f38..53bedb9 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -196,6 +196,9 @@ class ProcedureToSchedule:
         )
         blank_step = OrderedDict(ARBIN_SCHEMA["step_blank_body"])
 
+        # The end conditions of loop steps are extended below
+        step_abs = deepcopy(step_abs)
+
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
 
-- 
2.43.0


From bb1c0662164a48e6b73ef883d9ac120dab5f0a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 072/108] fix: keep the only end condition of a Maccor step

---
 beep/protocol/maccor_to_arbin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 53bedb9..995c2dd 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -328,7 +328,7 @@ class ProcedureToSchedule:
 
         # Ends
         if step_abs["Ends"] is not None:
-            if isinstance(step_abs["Ends"]["EndEntry"], OrderedDict):
+            if isinstance(step_abs["Ends"]["EndEntry"], dict):
                 blank_step["m_uLimitNum"] = 1
                 end = step_abs["Ends"]["EndEntry"]
                 end_index = 0
-- 
2.43.0


From 9737c2533abed29658d62977a256db887db6785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 073/108] fix: number and keep the logging limits of a Maccor
 step with one or no end condition

---
 beep/protocol/maccor_to_arbin.py | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 995c2dd..1b7e34e 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -365,27 +365,16 @@ class ProcedureToSchedule:
 
         # Reports
         if step_abs["Reports"] is not None:
-            if isinstance(step_abs["Reports"]["ReportEntry"], dict):
-                blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
-                report = step_abs["Reports"]["ReportEntry"]
-                report_index = 0
-                limit_start = len(step_abs["Ends"]["EndEntry"])
-                limit_key = "Limit{}".format(str(report_index + limit_start))
+            reports = step_abs["Reports"]["ReportEntry"]
+            if isinstance(reports, dict):
+                reports = [reports]
+            # The logging limits follow the limits of the end conditions
+            for report in reports:
+                limit_key = "Limit{}".format(blank_step["m_uLimitNum"])
                 blank_step[limit_key] = OrderedDict(
                     self.convert_report_to_logging_limit(report)
                 )
-            elif isinstance(step_abs["Ends"]["EndEntry"], list):
-                blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + len(
-                    step_abs["Reports"]["ReportEntry"]
-                )
-                for report_index, report in enumerate(
-                    step_abs["Reports"]["ReportEntry"]
-                ):
-                    limit_start = len(step_abs["Ends"]["EndEntry"])
-                    limit_key = "Limit{}".format(str(report_index + limit_start))
-                    blank_step[limit_key] = OrderedDict(
-                        self.convert_report_to_logging_limit(report)
-                    )
+                blank_step["m_uLimitNum"] = blank_step["m_uLimitNum"] + 1
 
         blank_step["m_uLimitNum"] = str(blank_step["m_uLimitNum"])
 
-- 
2.43.0


From 838424027c106a39e6efb3db821a77bbc7c7e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 074/108] fix: convert Maccor durations of a day and more

---
 beep/protocol/maccor_to_arbin.py | 48 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 1b7e34e..33b2c3e 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -15,7 +15,7 @@
 
 import os
 import re
-from datetime import datetime
+from datetime import timedelta
 from copy import deepcopy
 from beep.protocol import PROTOCOL_SCHEMA_DIR
 from collections import OrderedDict
@@ -400,6 +400,22 @@ class ProcedureToSchedule:
         limit["Equation0_szRight"] = "0"
         return limit
 
+    @staticmethod
+    def convert_step_time(value):
+        """
+        Converts a maccor duration to seconds. The number of hours may exceed
+        a day and empty fields count as zero.
+
+        Args:
+            value (str): duration as HH:MM:SS, seconds may have a fraction
+
+        Returns:
+            float: duration in seconds
+
+        """
+        hours, minutes, seconds = [float(field or 0) for field in value.split(":")]
+        return timedelta(hours=hours, minutes=minutes, seconds=seconds).total_seconds()
+
     def convert_end_to_limit(
         self, blank_step, end, step_index, step_name_list, step_type, step_flow_ctrl
     ):
@@ -475,20 +491,7 @@ class ProcedureToSchedule:
         elif end["EndType"] == "StepTime":
             limit["Equation0_szLeft"] = "PV_CHAN_Step_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in end["Value"]:
-                nofrag, frag = end["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    end["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(self.convert_step_time(end["Value"]))
         elif end["EndType"] == "Loop Cnt":
             loop_counter = int(re.search(r"\d+", step_type).group())
             limit["Equation0_szLeft"] = "TC_Counter{}".format(loop_counter)
@@ -539,19 +542,6 @@ class ProcedureToSchedule:
         elif report["ReportType"] == "StepTime":
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
-            if "." in report["Value"]:
-                nofrag, frag = report["Value"].split(".")
-                frag = frag[:6]  # truncate to microseconds
-                frag += (6 - len(frag)) * "0"  # add 0s
-                elapsed = datetime.strptime(
-                    nofrag.replace("::", "00:00:0"), "%H:%M:%S"
-                ).replace(microsecond=int(frag)) - datetime.strptime(
-                    "00:00:00", "%H:%M:%S"
-                )
-            else:
-                elapsed = datetime.strptime(
-                    report["Value"].replace("::", "00:00:0"), "%H:%M:%S"
-                ) - datetime.strptime("00:00:00", "%H:%M:%S")
-            limit["Equation0_szRight"] = str(elapsed.total_seconds())
+            limit["Equation0_szRight"] = str(self.convert_step_time(report["Value"]))
 
         return limit
-- 
2.43.0


From f7096d4a5099e70e5486619873c06dc0f96d6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 075/108] fix: keep the voltage limit of a C-rate discharge

---
 beep/protocol/maccor_to_arbin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 33b2c3e..6a93e70 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -235,6 +235,8 @@ class ProcedureToSchedule:
                     blank_step["m_szCtrlValue"] = "-" + step_abs["StepValue"].replace(
                         "C", ""
                     )
+                    blank_step["m_szExtCtrlValue1"] = step_abs["Limits"]["Voltage"]
+                    blank_step["m_szExtCtrlValue2"] = "0"
             elif step_abs["Limits"] is None:
                 blank_step["m_szStepCtrlType"] = "C-Rate"
                 if step_abs["StepType"] == "Charge":
-- 
2.43.0


From 97e44cadfabc173c82fb3f803763852d2c6fa9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 076/108] fix: reverse either comparison of a discharge current
 when converting to Arbin

---
 beep/protocol/maccor_to_arbin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index 6a93e70..e83a6cc 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -463,7 +463,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
@@ -482,7 +482,7 @@ class ProcedureToSchedule:
             elif step_type == "Dischrge":
                 limit["Equation0_szRight"] = "-" + end["Value"]
                 limit["Equation0_szCompareSign"] = (
-                    end["Oper"].replace(" ", "").replace("<", ">")
+                    end["Oper"].replace(" ", "").translate(str.maketrans("<>", "><"))
                 )
             else:
                 raise ValueError(
-- 
2.43.0


From 5ffe406177f7bf7638a6d3b37ecb355174168088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 077/108] fix: refuse Maccor steps and reports that have no
 Arbin equivalent

---
 beep/protocol/maccor_to_arbin.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beep/protocol/maccor_to_arbin.py b/beep/protocol/maccor_to_arbin.py
index e83a6cc..e9f6136 100644
--- a/beep/protocol/maccor_to_arbin.py
+++ b/beep/protocol/maccor_to_arbin.py
@@ -202,6 +202,12 @@ class ProcedureToSchedule:
         blank_step["m_szLabel"] = str(step_index + 1) + "-" + str(step_abs["StepNote"])
         blank_step["m_szCurrentRange"] = current_range
 
+        if step_abs["StepMode"] in ["Current", "Voltage"] and step_abs["StepType"] not in [
+            "Charge",
+            "Dischrge",
+        ]:
+            raise ValueError("Unable to convert step of type {}".format(step_abs["StepType"]))
+
         # Current control mode with currents measured in Amps
         if step_abs["StepMode"] == "Current" and "C" not in step_abs["StepValue"]:
             if step_abs["Limits"] is not None:
@@ -545,5 +551,7 @@ class ProcedureToSchedule:
             limit["Equation0_szLeft"] = "DV_Time"
             limit["Equation0_szCompareSign"] = ">"
             limit["Equation0_szRight"] = str(self.convert_step_time(report["Value"]))
+        else:
+            raise ValueError("Unable to set report for type {}".format(report["ReportType"]))
 
         return limit
-- 
2.43.0


From bf2501394fcbe138e1fd9db45f58803f9a12138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 078/108] fix: write the voltage range of BioLogic sequences
 under the name of the field

---
 beep/protocol/maccor_to_biologic_mb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 2b62a3f..c66c841 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -815,7 +815,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["E Range Max (V)"] = "{:.3f}".format(self.max_voltage_v)
+        mapped_seq["E range max (V)"] = "{:.3f}".format(self.max_voltage_v)
         return mapped_seq
 
     def _apply_min_voltage_to_seq(self, technique_num, seq, i):
@@ -823,7 +823,7 @@ class MaccorToBiologicMb:
             return seq
 
         mapped_seq = copy.deepcopy(seq)
-        mapped_seq["E Range Min (V)"] = "{:.3f}".format(self.min_voltage_v)
+        mapped_seq["E range min (V)"] = "{:.3f}".format(self.min_voltage_v)
         return mapped_seq
 
     """
-- 
2.43.0


From e097a9549258787ae046576d27e5e27a18377f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 079/108] fix: apply all mappings of a BioLogic sequence, not
 the last one only

---
 beep/protocol/maccor_to_biologic_mb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index c66c841..d43d3cc 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -847,12 +847,12 @@ class MaccorToBiologicMb:
             mapped_seq = seq
 
             mapped_seq = self._apply_max_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_current_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_max_voltage_to_seq(technique_num, seq, i)
-            mapped_seq = self._apply_min_voltage_to_seq(technique_num, seq, i)
+            mapped_seq = self._apply_min_current_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_max_voltage_to_seq(technique_num, mapped_seq, i)
+            mapped_seq = self._apply_min_voltage_to_seq(technique_num, mapped_seq, i)
 
             for mapper in self.seq_mappers + extra_mappers:
-                mapped_seq = mapper(technique_num, seq, i)
+                mapped_seq = mapper(technique_num, mapped_seq, i)
 
             mapped_seqs.append(mapped_seq)
 
-- 
2.43.0


From 06fc0bd8c680508750a92a401a875aba66fb53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 080/108] fix: filter the only end entry of a Maccor step

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index d43d3cc..bba05c0 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -685,7 +685,7 @@ class MaccorToBiologicMb:
             if end_entries is None:
                 return step
 
-            end_entries = end_entries if type(end_entries) is not list else end_entries
+            end_entries = [end_entries] if type(end_entries) is not list else end_entries
             filtered_end_entries = []
             for idx, end_entry in enumerate(end_entries):
                 if pred(end_entry, idx, step_num):
-- 
2.43.0


From 46b414494c5ab53c09b0e1ba58fbcde37746f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 081/108] fix: refuse Maccor loops that end anywhere but at the
 next step

---
 beep/protocol/maccor_to_biologic_mb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index bba05c0..9fb4350 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -622,6 +622,9 @@ class MaccorToBiologicMb:
                 # gather data around looped tech
                 curr_tech_start = i + 1
                 tech_ranges.append((curr_loop_1_start, curr_tech_start))
+                # steps are 1-indexed
+                if int(get(step, "Ends.EndEntry.Step")) != i + 2:
+                    raise Exception("Unsupported GOTO at the end of the loop at step {}".format(i + 1))
                 num_loops = int(get(step, "Ends.EndEntry.Value"))
                 tech_loops_by_start_step_num[curr_loop_1_start] = num_loops
 
@@ -1013,6 +1016,8 @@ class MaccorToBiologicMb:
 
                 assert len(seq_nums_by_step_num[step_num]) == 1
                 seq_num = seq_nums_by_step_num[step_num][0]
+                if int(get(step, "Ends.EndEntry.Step")) != step_num + 1:
+                    raise Exception("Unsupported GOTO at the end of the loop at step {}".format(step_num))
                 num_loops = max(
                     # the way maccor and biologic count loops varies by 1
                     int(get(step, "Ends.EndEntry.Value")) - 1,
-- 
2.43.0


From c70c6059091cd5b484b6498c7c95131a1f717bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 082/108] fix: fractions of hours and minutes in Maccor
 durations were cut off

---
 beep/protocol/maccor_to_biologic_mb.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 9fb4350..09dc788 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -167,18 +167,18 @@ class MaccorToBiologicMb:
         mins = 0.0 if min_str == "" else float(min_str)
         secs = 0.0 if sec_str == "" else float(sec_str)
 
-        if mins == 0.0 and secs == 0.0:
+        if mins == 0.0 and secs == 0.0 and hours % 1.0 == 0.0:
             return "{:.3f}".format(int(hours)), "h"
 
-        if secs == 0.0:
-            total_time_min = int(hours * 60 + mins)
-            return "{:.3f}".format(total_time_min), "mn"
+        total_time_min = hours * 60 + mins
+        if secs == 0.0 and total_time_min % 1.0 == 0.0:
+            return "{:.3f}".format(int(total_time_min)), "mn"
 
-        if secs % 1.0 == 0.0:
-            total_time_sec = int(hours * 60 * 60 + mins * 60 + secs)
-            return "{:.3f}".format(total_time_sec), "s"
+        total_time_sec = hours * 60 * 60 + mins * 60 + secs
+        if total_time_sec % 1.0 == 0.0:
+            return "{:.3f}".format(int(total_time_sec)), "s"
 
-        total_time_ms = int(hours * 60 * 60 * 1000 + mins * 60 * 1000 + secs * 1000)
+        total_time_ms = round(total_time_sec * 1000)
 
         biologic_max_time_num = 1e10  # taken from biologic ec-lab software
         if total_time_ms < biologic_max_time_num:
-- 
2.43.0


From 164bf1179e5c9ab3d9484ebcb51cbe8f383d3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 083/108] fix: a Maccor protocol that is refused leaves no
 BioLogic file

---
 beep/protocol/maccor_to_biologic_mb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 09dc788..845dca0 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1260,6 +1260,9 @@ class MaccorToBiologicMb:
                 )
             )
 
+        # The rules are created first, a protocol they refuse leaves no file
+        cycle_advancement_rules = self._create_cycle_advancement_rules(technique_partitions_post_conversion)
+
         protocol_str = self._diagnostic_file_str_from_technique_partitions_post_conversion(
             technique_partitions_post_conversion
         )
@@ -1268,7 +1271,6 @@ class MaccorToBiologicMb:
             print("writing {}".format(protocol_fp))
             f.write(protocol_str.encode("ISO-8859-1"))
 
-        cycle_advancement_rules = self._create_cycle_advancement_rules(technique_partitions_post_conversion)
         advancement_serializer = CycleAdvancementRulesSerializer()
 
         advancement_rules_fps = []
-- 
2.43.0


From 7600b4d2f243c7d3b3009f1ff92b96d75238a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:49 +0000
Subject: [PATCH 084/108] fix: end the first part of a split Maccor step
 without end entries

---
 beep/protocol/maccor_to_biologic_mb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 845dca0..336103f 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -921,7 +921,7 @@ class MaccorToBiologicMb:
 
             filtered_end_entries.append(new_end_entry)
             new_end_entries = filtered_end_entries if len(filtered_end_entries) > 1 else filtered_end_entries[0]
-            set_(step_part_1, "Ends.EndEntry", new_end_entries)
+            step_part_1["Ends"] = {"EndEntry": new_end_entries}
 
             set_(step_part_1, "StepNote", "Inserted by MaccorToBiologicConversion")
 
-- 
2.43.0


From ae343d9a726237262592717ef76c35a051d3b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:56 +0000
Subject: [PATCH 085/108] fix: count the cycle advances at the start of loops
 and of looped techniques when they repeat

---
 beep/protocol/maccor_to_biologic_mb.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/beep/protocol/maccor_to_biologic_mb.py b/beep/protocol/maccor_to_biologic_mb.py
index 336103f..985436b 100644
--- a/beep/protocol/maccor_to_biologic_mb.py
+++ b/beep/protocol/maccor_to_biologic_mb.py
@@ -1091,6 +1091,7 @@ class MaccorToBiologicMb:
 
             cycle_advances_on_tech_start = adv_cycle_count
             adv_cycle_count = 0
+            leading_cycle_advances = 0
 
             cycle_advances_by_step_transition = {}
 
@@ -1122,7 +1123,8 @@ class MaccorToBiologicMb:
                         raise Exception("Unclosed loop at step {}".format(step_num))
 
                     # we need to trace the loop to find the cycle advancement
-                    if adv_cycle_count > 0:
+                    loop_body_types = [get(s, "StepType") for s in tp.steps[prev_loop_open + 1:i]]
+                    if adv_cycle_count > 0 or "AdvCycle" in loop_body_types:
                         if prev_measurement_step_num == -1:
                             raise Exception(
                                 (
@@ -1132,9 +1134,12 @@ class MaccorToBiologicMb:
 
                         looped_cycle_advances = adv_cycle_count
                         for j in range(prev_loop_open + 1, i + 1):
-                            looped_step_num = j + tp.step_num_offset
+                            looped_step_num = j + 1 + tp.step_num_offset
+                            looped_step_type = get(tp.steps[j], "StepType")
                             if looped_step_num == step_num:
                                 raise Exception("Loop end step {} contains no measurement steps".format(step_num))
+                            elif looped_step_type == "AdvCycle":
+                                looped_cycle_advances += 1
                             elif looped_step_num == prev_measurement_step_num:
                                 raise Exception(
                                     (
@@ -1142,13 +1147,11 @@ class MaccorToBiologicMb:
                                         + " correct cycle index computation impossible"
                                     ).format(prev_measurement_step_num)
                                 )
-
-                            looped_step_type = get(tp.steps[j], "StepType")
-                            if looped_step_type == "Adv Cycle":
-                                looped_cycle_advances += 1
                             else:
                                 # assumption that step is measurement because there are
                                 # no interleaved loops and only other logical step is adv cycle
+                                if looped_cycle_advances == 0:
+                                    break
                                 transition = (prev_measurement_step_num, looped_step_num)
                                 cycle_advances_by_step_transition[transition] = looped_cycle_advances
                                 break
@@ -1160,13 +1163,15 @@ class MaccorToBiologicMb:
 
                     if prev_measurement_step_num == -1:
                         cycle_advances_on_tech_start += adv_cycle_count
+                        leading_cycle_advances = adv_cycle_count
                     elif adv_cycle_count > 0:
                         transition = (prev_measurement_step_num, step_num)
                         cycle_advances_by_step_transition[transition] = adv_cycle_count
                     prev_measurement_step_num = step_num
                     adv_cycle_count = 0
 
-            cycle_advances_on_tech_loop = adv_cycle_count
+            # advances before the first measurement step are repeated as well
+            cycle_advances_on_tech_loop = adv_cycle_count + leading_cycle_advances
 
             # TODO we should also check GOTO transitions as well
             # these should be done _after_ the Next Step and Loop cases
-- 
2.43.0


From 3ab9a8c5b2392bc4edd4193ae5d30479ca7fec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:36 +0000
Subject: [PATCH 086/108] fix: tell the starts of loops from their sequence
 numbers when a BioLogic jump is converted

---
 beep/protocol/biologic_mb_to_maccor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beep/protocol/biologic_mb_to_maccor.py b/beep/protocol/biologic_mb_to_maccor.py
index fc0f951..2d73200 100644
--- a/beep/protocol/biologic_mb_to_maccor.py
+++ b/beep/protocol/biologic_mb_to_maccor.py
@@ -580,7 +580,6 @@ class BiologicMbToMaccorProcedure:
         curr_step = 1
         curr_loop_start = -1
         curr_loop_end = -1
-        step_num_is_active_loop_start = set()
         seq_num_is_adv_cycle_step = set()
         seq_num_is_blank_loop = set()
         step_num_by_seq_num = {}
@@ -610,7 +609,6 @@ class BiologicMbToMaccorProcedure:
                 ]
                 # add do step
                 curr_step += 1
-                step_num_is_active_loop_start.update([curr_step])
                 seq_num_is_active_loop_start.update([seq_num])
 
             step_num_by_seq_num[seq_num] = curr_step
@@ -744,7 +742,7 @@ class BiologicMbToMaccorProcedure:
                 step = cls._create_step(
                     seq,
                     step_num_by_seq_num,
-                    step_num_is_active_loop_start,
+                    seq_num_is_active_loop_start,
                     end_step_num,
                 )
                 steps.append(step)
-- 
2.43.0


From 60dc806385fb6e1383ef3cbd6d3de18dfc3b37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 087/108] fix: commands that stop early end with exit code 1

---
 beep/cmd.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d656905..bcadd57 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -593,7 +593,7 @@ def structure(
 
         except KeyboardInterrupt:
             logging.critical("Keyboard interrupt caught - exiting...")
-            click.Context.exit(1)
+            ctx.exit(1)
 
         except BaseException:
             tbinfo = sys.exc_info()
@@ -808,7 +808,7 @@ def featurize(
                     f"'{fclass_name}' not recognized as BEEP native featurizer "
                     f"or importable module."
                 )
-                click.Context.exit(1)
+                ctx.exit(1)
 
             modname, _, clsname = fclass_name.rpartition('.')
             mod = importlib.import_module(modname)
@@ -816,7 +816,7 @@ def featurize(
 
             if not issubclass(cls, BEEPFeaturizer):
                 logging.critical(f"Class {cls.__name__} is not a subclass of BEEPFeaturizer.")
-                click.Context.exit(1)
+                ctx.exit(1)
             fclass = cls
 
         # check parameter arguments and update with full hyperparameter specifications
@@ -899,7 +899,7 @@ def featurize(
 
             except KeyboardInterrupt:
                 logger.critical("Keyboard interrupt caught - exiting...")
-                click.Context.exit(1)
+                ctx.exit(1)
 
             except BaseException:
                 tbinfo = sys.exc_info()
@@ -1320,7 +1320,7 @@ def train(
             test_errors = None
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
@@ -1483,7 +1483,7 @@ def predict(
 
     except KeyboardInterrupt:
         logging.critical("Keyboard interrupt caught - exiting...")
-        click.Context.exit(1)
+        ctx.exit(1)
     except BaseException:
         tbinfo = sys.exc_info()
         tbfmt = traceback.format_exception(*tbinfo)
-- 
2.43.0


From 63bd22947c4b4aff9b2efe5b869c1feab71aa5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 088/108] fix: structuring refuses to write several inputs to
 one output file

---
 beep/cmd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index bcadd57..aaaba9b 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -518,6 +518,12 @@ def structure(
                 for f in files
             ]
 
+    if not validation_only and len(set(output_files)) < n_files:
+        raise ValueError(
+            "Several input files would be written to the same output file; "
+            "specify distinct --output-filenames or structure them separately."
+        )
+
     if automatic and not protocol_parameters_dir:
         logger.warning(
             "--automatic was passed but no protocol parameters "
-- 
2.43.0


From 57f2e2d7c60c60f0136438a7b57d71cd45c2b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 089/108] fix: featurize writes the feature matrix to the
 output dir

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index aaaba9b..c88c689 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -935,7 +935,7 @@ def featurize(
         if output_filename:
             output_filename = os.path.abspath(output_filename)
         else:
-            output_filename = os.path.join(ctx.obj.cwd, default_filename)
+            output_filename = os.path.join(output_dir, default_filename)
 
         dumpfn(feature_matrix, output_filename)
         logger.info(f"Feature matrix of size {feature_matrix.matrix.shape} s"
-- 
2.43.0


From 4304d89643bbd6cd6963f7d37d4de5930df07f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 090/108] fix: a file that cannot be loaded does not stop the
 featurization of the others

---
 beep/cmd.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c88c689..286a423 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -850,11 +850,23 @@ def featurize(
         op_result = {
             "walltime": None,
             "processed_md5_chksum": md5sum(file),
-            "featurizers": []
+            "featurizers": [],
+            "traceback": None
         }
 
         logger.debug(f"{log_prefix}: Loading processed run '{file}'.")
-        structured_datapath = auto_load_processed(file)
+        try:
+            structured_datapath = auto_load_processed(file)
+        except Exception:
+            tbinfo = sys.exc_info()
+            logger.error(f"{log_prefix}: Could not be loaded: ({tbinfo[0].__name__}): {file}")
+            if ctx.obj.halt_on_error:
+                raise
+            op_result["traceback"] = traceback.format_exception(*tbinfo)
+            op_result["walltime"] = time.time() - t0_file
+            status_json["files"][file] = op_result
+            i += 1
+            continue
         logger.debug(f"{log_prefix}: Loaded processed run '{file}' into memory.")
 
         for fclass, f_hyperparams in fclass_tuples:
-- 
2.43.0


From 566e826b6700cb239e4fb74142f39c4211db99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 091/108] fix: intermediate featurizers do not overwrite each
 other

---
 beep/cmd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index 286a423..34232aa 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -842,6 +842,7 @@ def featurize(
     }
     i = 0
     bfs = []
+    intermediates = []
     for file in files:
         log_prefix = f"File {i + 1} of {n_files}"
 
@@ -908,6 +909,11 @@ def featurize(
                 if save_intermediates:
                     intermediate_filename = f"{fclass_name}-{os.path.basename(file)}"
                     output_path = os.path.join(output_dir, intermediate_filename)
+                    n_same = 1
+                    while output_path in intermediates:
+                        n_same += 1
+                        output_path = os.path.join(output_dir, f"{fclass_name}-{n_same}-{os.path.basename(file)}")
+                    intermediates.append(output_path)
                     dumpfn(f, output_path)
                     logger.info(
                         f"{log_prefix}: Featurizer {fclass_name} features for '{file}' written to '{output_path}'")
-- 
2.43.0


From 06316372cade1cfcaf734313688fac642fef96ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 092/108] fix: train searches the alphas it is given

---
 beep/cmd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 34232aa..bf14ca5 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1098,7 +1098,7 @@ def featurize(
 @click.option(
     "--n-alphas",
     "-an",
-    type=click.FLOAT,
+    type=click.INT,
     help="Number of linearly spaced alphas to explore during "
          "hyperparameter tuning. If not specified, sklearn defaults "
          "are used. Must be specified with --alpha-upper and "
@@ -1273,7 +1273,10 @@ def train(
     )
 
     alpha_params = [alpha_lower, alpha_upper, n_alphas]
-    if any(alpha_params) and not all(alpha_params):
+    n_alpha_params = sum(a is not None for a in alpha_params)
+    if n_alpha_params not in (0, len(alpha_params)):
+        raise ValueError("--alpha-lower, --alpha-upper and --n-alphas must be specified together.")
+    if n_alpha_params:
         alphas = np.linspace(start=alpha_lower, stop=alpha_upper, num=n_alphas)
     else:
         alphas = None
-- 
2.43.0


From bcd8a107ae5695ae6e31204c1629620531d234f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 093/108] fix: train passes thresholds and l1 ratios under the
 names the experiment expects

---
 beep/cmd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index bf14ca5..e5e73d8 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1285,15 +1285,15 @@ def train(
         l1_ratios = [float(l1r) for l1r in l1_ratios.strip().split(",")]
 
     additional_kwargs = {
-        "train_feature_nan_thresh": train_feature_nan_thresh,
-        "train_sample_nan_thresh": train_sample_nan_thresh,
+        "train_feature_drop_nan_thresh": train_feature_nan_thresh,
+        "train_sample_drop_nan_thresh": train_sample_nan_thresh,
         "predict_sample_nan_thresh": predict_sample_nan_thresh,
         "drop_nan_training_targets": drop_nan_training_targets,
         "impute_strategy": impute_strategy,
         "kfold": kfold,
         "max_iter": max_iter,
         "tol": tol,
-        "l1_ratios": l1_ratios,
+        "l1_ratio": l1_ratios,
         "homogenize_features": homogenize_features,
         "alphas": alphas,
     }
-- 
2.43.0


From 8a4d2beadc44ca81304d3a94faab30ad24703105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 094/108] fix: --drop-nan-training-targets drops samples
 without targets

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index e5e73d8..b15bcab 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1128,7 +1128,7 @@ def featurize(
          "be nan."
 )
 @click.option(
-    "--drop-nan-training-targets",
+    "--drop-nan-training-targets/--keep-nan-training-targets",
     is_flag=True,
     default=True,
     help="Drop samples containing any nan targets. If False and "
-- 
2.43.0


From 37f9fca7c1c4b6efef492df22862179cba6bc3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 095/108] fix: predict accepts a threshold of zero

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index b15bcab..f477efb 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1494,7 +1494,7 @@ def predict(
 
         # Optionally override the previously set sample nan thresh
         # for prediction dataframes
-        if predict_sample_nan_thresh:
+        if predict_sample_nan_thresh is not None:
             model.predict_sample_nan_thresh = predict_sample_nan_thresh
 
         logging.debug(
-- 
2.43.0


From 162128fe26a9c1fc81abf7c759bec454d7fbc007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 096/108] fix: --halt-on-error applies to protocol generation

---
 beep/cmd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index f477efb..c2ef1cb 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1622,6 +1622,9 @@ def protocol(
         tbfmt = traceback.format_exception(*tbinfo)
         logger.error(f"Protocol generation failed with : ({tbinfo[0].__name__})")
         status_json["traceback"] = tbfmt
+
+        if ctx.obj.halt_on_error:
+            raise
     t1 = time.time()
 
     for of in output_files:
-- 
2.43.0


From 002e049c66fe80841a56a1bc4469739e003123c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:34 +0000
Subject: [PATCH 097/108] fix: inspect names the featurizer file

---
 beep/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index c2ef1cb..d7f2ead 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -1722,7 +1722,7 @@ def inspect(file):
                 print("\tNo object.")
 
     elif isinstance(o, BEEPFeaturizer):
-        print("\n\nBEEP Featurizer: {file}\n\n")
+        print(f"\n\nBEEP Featurizer: {file}\n\n")
 
         print("\nFile paths:")
         pprint.pprint(o.paths)
-- 
2.43.0


From c971091bad3d7219b616c286d6416a9fff9dc43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:40 +0000
Subject: [PATCH 098/108] fix: a model trained with an array of alphas has them
 after loading

---
 beep/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/model.py b/beep/model.py
index 5b48ae6..c958655 100644
--- a/beep/model.py
+++ b/beep/model.py
@@ -500,7 +500,7 @@ class BEEPLinearModelExperiment(MSONable):
             "target_matrix": self.target_matrix.as_dict(),
             "targets": self.targets,
             "model_name": self.model_name,
-            "alphas": self.alphas,
+            "alphas": None if self.alphas is None else np.asarray(self.alphas).tolist(),
             "train_feature_drop_nan_thresh": self.train_feature_drop_thresh,
             "train_sample_drop_nan_thresh": self.train_sample_drop_thresh,
             "predict_sample_nan_thresh": self.predict_sample_nan_thresh,
-- 
2.43.0


From 767301dcad528a00dbce24b8408d15fb0f5fc185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:16 +0000
Subject: [PATCH 099/108] fix: parameters are looked up in the file of the
 project itself, not of one whose name it begins

---
 beep/deprecated/parameters_lookup.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/beep/deprecated/parameters_lookup.py b/beep/deprecated/parameters_lookup.py
index 266c999..5556020 100644
--- a/beep/deprecated/parameters_lookup.py
+++ b/beep/deprecated/parameters_lookup.py
@@ -1,4 +1,4 @@
-from glob import glob
+from glob import escape, glob
 import os
 
 import pandas as pd
@@ -28,6 +28,23 @@ def get_project_sequence(path):
     return file_parts
 
 
+def get_project_files(path, project_name):
+    """
+    Helper function to get the parameter files of a project, i.e. those
+    named as the project up to the first underscore or dot
+
+    Args:
+        path (str): location to look for parameter files
+        project_name (str): name of the project to search with
+
+    Returns:
+        ([str]): full paths of the parameter files of the project
+
+    """
+    candidates = glob(os.path.join(escape(path), escape(project_name) + "*"))
+    return [f for f in candidates if get_project_sequence(f)[0] == project_name]
+
+
 def get_protocol_parameters(filepath, parameters_path):
     """
     Helper function to get the project parameters for a file given the filename
@@ -44,7 +61,7 @@ def get_protocol_parameters(filepath, parameters_path):
     project_name_list = get_project_sequence(filepath)
     project_name = project_name_list[0]
     path = os.path.abspath(parameters_path)
-    project_parameter_files = glob(os.path.join(path, project_name + "*"))
+    project_parameter_files = get_project_files(path, project_name)
     assert len(project_parameter_files) <= 1, (
             "Found too many parameter files for: " + project_name
     )
@@ -81,9 +98,7 @@ def get_diagnostic_parameters(
             diagnostic cycle
 
     """
-    project_diag_files = glob(
-        os.path.join(diagnostic_parameter_path, project_name + "*")
-    )
+    project_diag_files = get_project_files(diagnostic_parameter_path, project_name)
     assert len(project_diag_files) <= 1, (
             "Found too many diagnostic parameter files for: " + project_name
     )
-- 
2.43.0


From 555e6ad044adf831344c40eb8dec96757772e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 100/108] fix: the synthetic fit uses the dQdV error when dQdV
 is asked for

---
 beep/features/intracell_analysis_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/features/intracell_analysis_v2.py b/beep/features/intracell_analysis_v2.py
index 4c19e3a..58fa5d2 100644
--- a/beep/features/intracell_analysis_v2.py
+++ b/beep/features/intracell_analysis_v2.py
@@ -798,7 +798,7 @@ class IntracellAnalysisV2:
             elif error_type == 'dVdQ':
                 return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
             elif error_type == 'dQdV':
-                return self._get_error_from_degradation_matching_dvdq(x, *params)[0]
+                return self._get_error_from_degradation_matching_dqdv(x, *params)[0]
             else:
                 return self._get_error_from_degradation_matching_v_q(x, *params)[0]
         except RuntimeError:
-- 
2.43.0


From b968696d08e50e946c906746aed87760b60a3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 101/108] fix: losses of the negative electrode are locked
 where the lower voltage limit is hit

---
 beep/features/intracell_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beep/features/intracell_analysis.py b/beep/features/intracell_analysis.py
index debff2b..cfd43f9 100644
--- a/beep/features/intracell_analysis.py
+++ b/beep/features/intracell_analysis.py
@@ -720,9 +720,9 @@ class IntracellAnalysis:
         #  Update degradation shifts for LAM_NE
         lower_voltage_limit = self.LOWER_VOLTAGE
         ne_soc_setpoint = ne_pristine['SOC_aligned'].loc[
-            np.argmin((pe_pristine['Voltage_aligned']
-                       - ne_pristine[
-                           'Voltage_aligned'] - lower_voltage_limit))]  # SOC at which the lower voltage limit is hit
+            np.argmin(np.abs(pe_pristine['Voltage_aligned']
+                             - ne_pristine[
+                                 'Voltage_aligned'] - lower_voltage_limit))]  # SOC at which the lower voltage limit is hit
         ne_translation += lam_ne * ne_soc_setpoint / 100  # correction for shrinkage to ensure the locking of the
         # lower voltage SOC
         ne_shrinkage += lam_ne  # shrinkage of NE capacity due to LAM_NE
-- 
2.43.0


From 736535853aa5152fa90b3ce088076885a40e72c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 102/108] fix: electrode features are not announced as valid
 for a run with a single usable diagnostic

---
 beep/features/intracell_losses.py    | 19 +++++++++++++++++++
 beep/features/intracell_losses_v2.py | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/beep/features/intracell_losses.py b/beep/features/intracell_losses.py
index e8ce774..03fcf7f 100644
--- a/beep/features/intracell_losses.py
+++ b/beep/features/intracell_losses.py
@@ -142,6 +142,25 @@ class IntracellFeatures(IntracellCycles):
             and code used to produce features
     """
 
+    def validate(self):
+        """
+        The features are taken from the first and second diagnostics, so both have to be there.
+
+        Returns:
+            bool: True/False indication of ability to proceed with feature generation
+        """
+        val, msg = super().validate()
+        if not val:
+            return val, msg
+        summary = self.datapath.diagnostic_summary
+        usable = summary[
+            (summary.cycle_type == self.hyperparameters["diagnostic_cycle_type"]) &
+            (summary.discharge_capacity > IntracellAnalysis.THRESHOLD)
+            ]
+        if len(usable) < 2:
+            return False, "Fewer than two diagnostics above threshold for matching cycle type"
+        return True, None
+
     def create_features(self):
         """
         Args:
diff --git a/beep/features/intracell_losses_v2.py b/beep/features/intracell_losses_v2.py
index ab0413d..6aebc2a 100644
--- a/beep/features/intracell_losses_v2.py
+++ b/beep/features/intracell_losses_v2.py
@@ -157,6 +157,25 @@ class IntracellFeaturesV2(IntracellCyclesV2):
             and code used to produce features
     """
 
+    def validate(self):
+        """
+        The features are taken from the first and second diagnostics, so both have to be there.
+
+        Returns:
+            bool: True/False indication of ability to proceed with feature generation
+        """
+        val, msg = super().validate()
+        if not val:
+            return val, msg
+        summary = self.datapath.diagnostic_summary
+        usable = summary[
+            (summary.cycle_type == self.hyperparameters["diagnostic_cycle_type"]) &
+            (summary.discharge_capacity > IntracellAnalysisV2.THRESHOLD)
+            ]
+        if len(usable) < 2:
+            return False, "Fewer than two diagnostics above threshold for matching cycle type"
+        return True, None
+
     def create_features(self):
         """
         Args:
-- 
2.43.0


From 895057e9c8d93896a59e056bbb5e119ae149dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 103/108] fix: principal components saved as json can be loaded
 again

---
 beep/features/principal_components.py | 38 ++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/beep/features/principal_components.py b/beep/features/principal_components.py
index 88a6f8e..a6fe645 100644
--- a/beep/features/principal_components.py
+++ b/beep/features/principal_components.py
@@ -1,7 +1,7 @@
 import numpy as np
 import pandas as pd
 import json
-from monty.json import MSONable
+from monty.json import MSONable, MontyDecoder
 from monty.serialization import loadfn
 from sklearn.decomposition import PCA
 from sklearn.preprocessing import StandardScaler
@@ -82,6 +82,10 @@ class PrincipalComponents(MSONable):
         obj = {
             "@module": self.__class__.__module__,
             "@class": self.__class__.__name__,
+            "data": pd.DataFrame(self.data).to_dict("split"),
+            "name": self.name,
+            "n_components": self.n_components,
+            "explained_variance_threshold": self.explained_variance_threshold,
             "pca": self.pca.__dict__,
             "scaler": self.scaler.__dict__,
             "embeddings": self.embeddings,
@@ -89,6 +93,30 @@ class PrincipalComponents(MSONable):
         }
         return obj
 
+    @classmethod
+    def from_dict(cls, d):
+        """
+        Method for invocation from dictionary/json, restores the fitted
+        scaler and decomposition.
+
+        Args:
+            d (dict): object representation as dictionary.
+
+        Returns:
+            beep.principal_components.PrincipalComponents:
+        """
+        obj = cls(
+            pd.DataFrame(**MontyDecoder().process_decoded(d["data"])),
+            name=d["name"],
+            n_components=d["n_components"],
+            explained_variance_threshold=d["explained_variance_threshold"],
+        )
+        obj.scaler.__dict__.update(MontyDecoder().process_decoded(d["scaler"]))
+        obj.pca.__dict__.update(MontyDecoder().process_decoded(d["pca"]))
+        obj.evaluate()
+        obj.get_reconstruction_errors()
+        return obj
+
     def fit(self):
         """
         Method to scale the dataframe, run PCA and evaluate embeddings.
@@ -96,6 +124,14 @@ class PrincipalComponents(MSONable):
         # Center and scale training data
         scaled_data = self.scaler.fit_transform(self.data)
         self.pca.fit(scaled_data)
+        self.evaluate()
+        return
+
+    def evaluate(self):
+        """
+        Method to evaluate the embeddings of the training data with the fitted PCA.
+        """
+        scaled_data = self.scaler.transform(self.data)
         # Find minimum number of components to explain threshold amount of variance in the data.
         self.min_components = (
             np.min(
-- 
2.43.0


From 6b7d584bd5fdd5fd08b67c2d491b5f932daf338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 104/108] fix: structure prefers local files over s3 objects of
 the same path, as documented

---
 beep/cmd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index d7f2ead..5e49a58 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -447,8 +447,11 @@ def structure(
         s3_keys_matched = []
         local_files = []
         for maybe_glob in files:
+            # local files take priority over s3 objects of the same path
+            if os.path.exists(maybe_glob):
+                local_files.append(maybe_glob)
             # add direct matches
-            if "*" not in maybe_glob:
+            elif "*" not in maybe_glob:
                 if maybe_glob in s3_keys:
                     s3_keys_matched.append(maybe_glob)
                 else:
-- 
2.43.0


From ce1c3ac0d6f2b434ae32b4284b74440e6b732490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 105/108] fix: output filenames follow the order of the input
 files when some come from s3

---
 beep/cmd.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/beep/cmd.py b/beep/cmd.py
index 5e49a58..b420c64 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -445,42 +445,44 @@ def structure(
 
         # local files matching globs are pre-expanded by Click
         s3_keys_matched = []
-        local_files = []
+        matched_files = []
         for maybe_glob in files:
             # local files take priority over s3 objects of the same path
             if os.path.exists(maybe_glob):
-                local_files.append(maybe_glob)
+                matching_files = []
             # add direct matches
             elif "*" not in maybe_glob:
-                if maybe_glob in s3_keys:
-                    s3_keys_matched.append(maybe_glob)
-                else:
-                    local_files.append(maybe_glob)
+                matching_files = [maybe_glob] if maybe_glob in s3_keys else []
             else:
                 # its a glob, and real local globs will
                 # be pre-expanded by click, so the only
                 # valid globs will be on s3. All remaining
                 # globs are invalid/bad paths
                 matching_files = fnmatch.filter(s3_keys, maybe_glob)
-                if matching_files:
-                    s3_keys_matched += matching_files
-                else:
-                    local_files.append(maybe_glob)
+
+            if matching_files:
+                s3_keys_matched += matching_files
+                matched_files += [(s3k, True) for s3k in matching_files]
+            else:
+                matched_files.append((maybe_glob, False))
 
         logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
-        local_files_from_s3 = []
-        for s3k in s3_keys_matched:
-            s3k_basename = os.path.basename(s3k)
+        # keep the order of the input, which output filenames refer to
+        files = []
+        for f, is_s3_key in matched_files:
+            if not is_s3_key:
+                files.append(f)
+                continue
+            s3k_basename = os.path.basename(f)
             pardir = S3_CACHE if s3_use_cache else ctx.obj.cwd
             pardir = os.path.abspath(pardir)
             if not os.path.exists(pardir):
                 os.makedirs(pardir)
             s3k_local_fullname = os.path.join(pardir, s3k_basename)
-            logger.info(f"Fetching {s3k} from {s3_bucket}")
-            download_s3_object(s3_bucket, s3k, s3k_local_fullname)
+            logger.info(f"Fetching {f} from {s3_bucket}")
+            download_s3_object(s3_bucket, f, s3k_local_fullname)
             logger.info(f"Fetched s3 file {s3k_basename} to {s3k_local_fullname}")
-            local_files_from_s3.append(s3k_local_fullname)
-        files = local_files + local_files_from_s3
+            files.append(s3k_local_fullname)
 
     files = [os.path.abspath(f) for f in files]
 
-- 
2.43.0


From 7f7f7a15a693ae6168beaa2193932cc8e4dba715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 106/108] fix: s3 objects with the same file name are not
 downloaded over each other or over local input files

---
 beep/cmd.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/beep/cmd.py b/beep/cmd.py
index b420c64..904d2c2 100644
--- a/beep/cmd.py
+++ b/beep/cmd.py
@@ -467,6 +467,20 @@ def structure(
                 matched_files.append((maybe_glob, False))
 
         logger.info(f"Found {len(s3_keys_matched)} matching files on s3")
+        local_names = [
+            os.path.abspath(
+                os.path.join(
+                    S3_CACHE if s3_use_cache else ctx.obj.cwd, os.path.basename(f)
+                ) if is_s3_key else f
+            ) for f, is_s3_key in matched_files
+        ]
+        for (f, is_s3_key), local_name in zip(matched_files, local_names):
+            if is_s3_key and local_names.count(local_name) > 1:
+                raise ValueError(
+                    f"Several input files share the local name {local_name}, to "
+                    f"which s3 object {f} would be downloaded; structure them separately."
+                )
+
         # keep the order of the input, which output filenames refer to
         files = []
         for f, is_s3_key in matched_files:
-- 
2.43.0


From ae202a84c72117ce1d42c958a255558d921f01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 107/108] fix: files are transferred between projects
 completely and byte for byte

---
 beep/utils/project_transfer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index 384583b..df1829b 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -83,15 +83,18 @@ class ProjectTransfer:
                 s3.download_file(
                     self.bucket, object_name, os.path.join(scratch_dir, name)
                 )
-                from_file = open(os.path.join(scratch_dir, name))
-                line = from_file.readline()
-                line = line.replace(self.input_project, self.output_project)
+                from_file_name = os.path.join(scratch_dir, name)
                 to_file_name = os.path.join(
                     scratch_dir, name.replace(self.input_project, self.output_project)
                 )
-                to_file = open(to_file_name, "w")
-                to_file.write(line)
-                shutil.copyfileobj(from_file, to_file)
+                if to_file_name == from_file_name:
+                    from_file_name += ".orig"
+                    os.rename(to_file_name, from_file_name)
+                with open(from_file_name, "rb") as from_file, open(to_file_name, "wb") as to_file:
+                    line = from_file.readline()
+                    line = line.replace(self.input_project.encode(), self.output_project.encode())
+                    to_file.write(line)
+                    shutil.copyfileobj(from_file, to_file)
                 if self.dry_run:
                     output_bucket = "beep-sync-test-stage"
                 else:
-- 
2.43.0


From 6b4d66d862715141f99ab3bb90aaa03a9dd9abb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 108/108] fix: project transfer lists folders that hold no
 objects on a page

---
 beep/utils/project_transfer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beep/utils/project_transfer.py b/beep/utils/project_transfer.py
index df1829b..6459217 100644
--- a/beep/utils/project_transfer.py
+++ b/beep/utils/project_transfer.py
@@ -63,7 +63,7 @@ class ProjectTransfer:
         paginator = client.get_paginator("list_objects_v2")
         result = paginator.paginate(Bucket=bucket, Delimiter="/", Prefix=prefix)
         for response in result:
-            object_names = object_names + response["Contents"]
+            object_names = object_names + response.get("Contents", [])
         return object_names
 
     def download_and_modify(self, object_names):
-- 
2.43.0

