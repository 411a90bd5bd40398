From 59e6395705037a5cf92cee335c37858a08915d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 01/75] fix: compute the time bar clock in integer nanoseconds

float64 cannot represent epoch nanoseconds (spacing 256 ns), so bars of
sub-second periods drifted off their grid (1 ms bars were 999936 ns wide and
build_ohlcv raised) and trades within 128 ns of a boundary were dropped or
put in the wrong bar.
---
 finmlkit/bar/logic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/finmlkit/bar/logic.py b/finmlkit/bar/logic.py
index d95da3b..824fe65 100644
--- a/finmlkit/bar/logic.py
+++ b/finmlkit/bar/logic.py
@@ -27,16 +27,17 @@ def _time_bar_indexer(
         The first bar is aligned to the ceiling of the first timestamp, ensuring consistent bar boundaries.
         Duplicate indices may occur if a bar interval contains no trades (empty bars).
     """
-    bar_interval_ns = interval_seconds * 1e9
+    # integer nanoseconds: float64 cannot hold a current epoch timestamp exactly (its spacing is 256 ns)
+    bar_interval_ns = np.int64(round(interval_seconds * 1e9))
 
     # determine the first bar start time (closest integer multiple of bar_interval_ns)
     bar_start_ts = timestamps[0] // bar_interval_ns * bar_interval_ns
 
     # last tick timestamp
-    last_ts = np.ceil(timestamps[-1] / bar_interval_ns) * bar_interval_ns
+    last_ts = -(-timestamps[-1] // bar_interval_ns) * bar_interval_ns
 
     # create the array of bar close timestamps
-    bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns, dtype=np.int64)
+    bar_clock = np.arange(bar_start_ts, last_ts + bar_interval_ns + 1, bar_interval_ns).astype(np.int64)
 
     # find the indices of the bar close timestamps in the raw trades timestamps
     bar_close_indices = (np.searchsorted(timestamps, bar_clock, side='right') - 1).astype(np.int64)
-- 
2.43.0


From 62e8751e921eed60ef9715b66f3a1437188b4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 02/75] fix: spread of a bar whose first trade is the first of
 the data or its only trade

Index -1 wrapped around to the last trade of the data (future prices entered
the first bar's spread), and a one-trade bar always counted a side change.
---
 finmlkit/bar/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index fc486e5..472d65a 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -482,8 +482,9 @@ def comp_bar_directional_features(
         current_cum_spread = 0.0
 
         # Initialize previous tick sign for spread calculation
-        if end > start:
-            prev_tick_sign = trade_sides[start - 1]  # Previous trade side at the start of the bar
+        if end >= start:
+            # Previous trade side at the start of the bar; the very first trade has no predecessor, hence no spread
+            prev_tick_sign = trade_sides[max(start - 1, 0)]
         else:
             prev_tick_sign = 0  # Default value if no trades in bar
 
-- 
2.43.0


From 617423ddf3f80b7044c5f78959c9873deee15f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 03/75] fix: directional features of bars without directional
 trades

mean_spread divided by zero (an exception without JIT, NaN with it) and the
cumulative imbalances showed their +-1e9 sentinels.  Every set of time bars
ends with such a bar.
---
 finmlkit/bar/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 472d65a..ec74840 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -534,7 +534,17 @@ def comp_bar_directional_features(
         dollars_buy[i] = current_dollars_buy
         dollars_sell[i] = current_dollars_sell
         max_spread[i] = current_max_spread
-        mean_spread[i] = current_cum_spread / (current_tics_buy + current_tics_sell)
+        n_sided = current_tics_buy + current_tics_sell
+        if n_sided > 0:
+            mean_spread[i] = current_cum_spread / n_sided
+        else:
+            # No directional trades: the cumulative imbalances never left zero
+            cum_ticks_min[i] = 0
+            cum_ticks_max[i] = 0
+            cum_volumes_min[i] = 0.0
+            cum_volumes_max[i] = 0.0
+            cum_dollars_min[i] = 0.0
+            cum_dollars_max[i] = 0.0
 
     return (
         ticks_buy, ticks_sell,
-- 
2.43.0


From b31177b6d1fa607a6e075a4ff684842dac199204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 04/75] fix: cumulative volume and dollar extremes beyond 1e9

The 1e9 sentinels were reported instead of larger minima (or smaller maxima).
---
 finmlkit/bar/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index ec74840..3d11394 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -458,10 +458,10 @@ def comp_bar_directional_features(
     # Initialize cumulative min and max arrays with appropriate values
     cum_ticks_min = np.full(n_bars, 1e9, dtype=np.int64)            # inf (large value)
     cum_ticks_max = np.full(n_bars, -1e9, dtype=np.int64)                   # -inf (small value)
-    cum_volumes_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_volumes_max = np.full(n_bars, -1e9, dtype=np.float32)
-    cum_dollars_min = np.full(n_bars, 1e9, dtype=np.float32)
-    cum_dollars_max = np.full(n_bars, -1e9, dtype=np.float32)
+    cum_volumes_min = np.full(n_bars, np.inf, dtype=np.float32)
+    cum_volumes_max = np.full(n_bars, -np.inf, dtype=np.float32)
+    cum_dollars_min = np.full(n_bars, np.inf, dtype=np.float32)
+    cum_dollars_max = np.full(n_bars, -np.inf, dtype=np.float32)
 
     # Compute the bar directional features
     for i in prange(n_bars):
-- 
2.43.0


From f3e27697481dfce2098257170d8b3f17433722b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 05/75] fix: keep trade sides with their trades when
 preprocessing sorts or deduplicates

The maker flags were applied in input order (and length) to trades that had
been sorted by id, deduplicated and sorted by time.
---
 finmlkit/bar/data_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e91437d..05250a4 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -299,6 +299,10 @@ class TradesData:
         self.data_ok = True
         self.discontinuities = []  # Reset discontinuities list
 
+        # The maker flags have to follow their trades through sorting and deduplication
+        if self.is_buyer_maker is not None:
+            self._data['is_buyer_maker'] = self.is_buyer_maker
+
         # Sort by ID to inspect data integrity
         self.data.sort_values(by=['id'], inplace=True)
         # Reset index
@@ -323,6 +327,9 @@ class TradesData:
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
+        if self.is_buyer_maker is not None:
+            self.is_buyer_maker = self._data.pop('is_buyer_maker').values
+
     def _merge_trades(self):
         """
         Merge trades that occur at the same timestamp and price level.
-- 
2.43.0


From db84834a9e2dcec9f455cbe8bc1e9216f6c5d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 06/75] fix: keep the first occurrence of a duplicated trade id

The sort by id was not stable, so which duplicate came first was arbitrary
for inputs of more than 16 trades.
---
 finmlkit/bar/data_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 05250a4..6af9df4 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -304,7 +304,7 @@ class TradesData:
             self._data['is_buyer_maker'] = self.is_buyer_maker
 
         # Sort by ID to inspect data integrity
-        self.data.sort_values(by=['id'], inplace=True)
+        self.data.sort_values(by=['id'], kind='stable', inplace=True)
         # Reset index
         self.data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From e2579b867ca4af92be58c6ffa9bd44dabfd812a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 07/75] fix: skipped triple barrier events have no
 uninitialised touch index

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 0e749fa..29c15cd 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -69,7 +69,7 @@ def triple_barrier(
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
     labels = np.zeros(n_events, dtype=np.int8)                # The label (-1, 1) or (0, 1)
-    touch_idxs   = np.empty(n_events, dtype=np.int64)               # Index of the first barrier touch
+    touch_idxs   = event_idxs.astype(np.int64)                      # Index of the first barrier touch (the event itself if it is skipped)
     rets = np.full(n_events, np.nan, dtype=np.float64)             # The return corresponding to the given label
     max_rb_ratios = np.full(n_events, np.nan, dtype=np.float64)    # Maximum return/target ratio during the search
 
-- 
2.43.0


From 11259d6f0f1197d40e619674e49e176225650750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 08/75] fix: a barrier touched on the last observation of the
 window counts as touched

---
 finmlkit/label/tbm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 29c15cd..1fbc436 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -102,6 +102,7 @@ def triple_barrier(
         # ---------- Evaluate the path -----------
         side_mult = side[i_event]
         touch_idx = t1_idx
+        touched = False
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
@@ -126,9 +127,11 @@ def triple_barrier(
             # Check if we touch the barrier
             if ret >= upper_barrier:
                 touch_idx = j
+                touched = True
                 break
             if ret <= lower_barrier:
                 touch_idx = j
+                touched = True
                 break
 
         # ---------- Assign the label and other values ------------
@@ -143,7 +146,7 @@ def triple_barrier(
             labels[i_event] = sign if sign != 0 else 1
 
 
-        if touch_idx == t1_idx:
+        if not touched:
             # Calculate the maximum return-barrier ratio based sample weight
             if ret > 0.:
                 max_rbr = max_urbr / (1 + max_lrbr)
-- 
2.43.0


From 9a5ebaf71a8eb360b8966d78b99a845528f718b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 09/75] fix: report the return at the vertical barrier when the
 window ends before the minimum close time

---
 finmlkit/label/tbm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 1fbc436..176e0d9 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -106,7 +106,8 @@ def triple_barrier(
         max_urbr = 0.0
         max_lrbr = 0.0
         base_price = log_close[t0_idx]  # Base price for calculating returns
-        ret = 0.
+        # Return at the vertical barrier, unless a horizontal barrier is touched earlier
+        ret = (log_close[t1_idx] - base_price) * side_mult
         for j in range(t0_idx + 1, t1_idx + 1):
 
             dur_ns = timestamps[j] - t0  # Duration in nanoseconds
-- 
2.43.0


From 14a09988de1a301fb67e4e9d744967b0c1f9de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 10/75] fix: a bottom barrier multiplier of -inf disables the
 barrier, as documented

---
 finmlkit/label/tbm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index 176e0d9..f809824 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -86,6 +86,11 @@ def triple_barrier(
         # Upper and lower barriers in log-return space
         upper_barrier = tgt * top_mult
         lower_barrier = -tgt * bottom_mult
+        # An infinite multiplier of either sign disables the barrier
+        if np.isinf(upper_barrier):
+            upper_barrier = np.inf
+        if np.isinf(lower_barrier):
+            lower_barrier = -np.inf
         # Pre-compute barrier conditions outside the loop
         upper_valid = np.isfinite(upper_barrier) and upper_barrier != 0.0
         lower_valid = np.isfinite(lower_barrier) and lower_barrier != 0.0
-- 
2.43.0


From 2c2c52647a66142f657aaf1bba65e68512c37d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 11/75] fix: compute the vertical barrier in integer
 nanoseconds

---
 finmlkit/label/tbm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index f809824..ac02d2d 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -63,7 +63,12 @@ def triple_barrier(
 
     n_events = len(event_idxs)  # Number of events (subset of samples)
     bottom_mult, top_mult = horizontal_barriers
-    vertical_barrier_ns = vertical_barrier * 1e9  # Convert to nanoseconds
+    # Convert to nanoseconds, in integers: the timestamps are not exact in float64
+    span_ns = timestamps[-1] - timestamps[0]
+    if vertical_barrier * 1e9 >= span_ns:
+        vertical_barrier_ns = span_ns
+    else:
+        vertical_barrier_ns = np.int64(np.round(vertical_barrier * 1e9))
     min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
-- 
2.43.0


From edc3ca4a84f8063f58540d9cc83bb3ec97c0f478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 12/75] fix: CUSUM bars do not modify the caller's volatility
 array

---
 finmlkit/bar/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/kit.py b/finmlkit/bar/kit.py
index f20f8db..4e847a8 100644
--- a/finmlkit/bar/kit.py
+++ b/finmlkit/bar/kit.py
@@ -154,7 +154,7 @@ class CUSUMBarKit(BarBuilderBase):
         """
         super().__init__(trades)
         self.lambda_mult = sigma_mult
-        self._sigma = sigma
+        self._sigma = np.array(sigma, dtype=np.float64)  # gaps are filled in place, not in the caller's array
         self.sigma_floor = sigma_floor
 
         logger.info(f"CUSUM Bar builder initialized with: sigma multiplier={sigma_mult}.")
-- 
2.43.0


From 3d0e346746e8cf3c005716204ca6398d7d1214e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 13/75] fix: refuse to save an empty selection before touching
 the store

---
 finmlkit/bar/data_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 6af9df4..6b287f5 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -450,6 +450,10 @@ class TradesData:
         :returns: Full HDF5 key path used for storage (e.g., "/trades/2021-03").
         :raises ValueError: If user declines to overwrite existing data or if data format is invalid.
         """
+        if self.data.empty:
+            # Refuse before touching the file: an existing month would be removed first
+            raise ValueError("No trades to save in the active view range.")
+
         # ------------------------------------------------------------------
         #  Derive the monthly key and ensure output path exists
         # ------------------------------------------------------------------
-- 
2.43.0


From f3b6d1245501b0ace9bc5388e1c41170e8d17ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 14/75] fix: keep the order of simultaneous trades when a load
 has to sort

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 6b287f5..1e14ac7 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -772,7 +772,8 @@ class TradesData:
         # Ensure the DataFrame index is sorted
         if not df.index.is_monotonic_increasing:
             logger.info("Sorting DataFrame by datetime index after concatenation...")
-            df.sort_index(inplace=True)
+            # stable: trades of one timestamp stay in the order they were saved in
+            df.sort_index(kind="stable", inplace=True)
 
         logger.info(f"Successfully loaded {len(df):,} trades from {len(frames)} monthly groups.")
 
-- 
2.43.0


From 81dae3f3d0a1ac4997c1f888e8b7acd83c2005f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 15/75] fix: metadata and integrity info of an appended month
 describe all its trades

---
 finmlkit/bar/data_model.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 1e14ac7..e40fe3e 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -544,14 +544,27 @@ class TradesData:
             # ------------------------------------------------------------------
             #  Update lightweight per‑group metadata (fast group discovery later)
             # ------------------------------------------------------------------
+            first_timestamp = int(frame["timestamp"].iloc[0])
+            last_timestamp = int(frame["timestamp"].iloc[-1])
+            data_ok, missing_pct = self.data_ok, self.missing_pct
+            appended = month_exists and not should_overwrite
+            if appended and meta_key in store:
+                # The metadata describe everything stored under the key, not only the appended trades
+                prev = store[meta_key]
+                n_prev, n_new = int(prev["record_count"]), len(frame)
+                first_timestamp = min(first_timestamp, int(prev["first_timestamp"]))
+                last_timestamp = max(last_timestamp, int(prev["last_timestamp"]))
+                if data_ok is not False and prev["data_integrity_ok"] is not True:
+                    data_ok = prev["data_integrity_ok"]
+                missing_pct = (prev["missing_pct"] * n_prev + missing_pct * n_new) / (n_prev + n_new)
+
             meta = pd.Series(
                 {
-                    "record_count": len(frame) if should_overwrite else (
-                        store.get_storer(h5_key).nrows if month_exists else len(frame)),
-                    "first_timestamp": int(frame["timestamp"].iloc[0]),
-                    "last_timestamp": int(frame["timestamp"].iloc[-1]),
-                    "data_integrity_ok": self.data_ok,  # Add integrity flag to main metadata
-                    "missing_pct": self.missing_pct     # Add count of discontinuities
+                    "record_count": store.get_storer(h5_key).nrows if appended else len(frame),
+                    "first_timestamp": first_timestamp,
+                    "last_timestamp": last_timestamp,
+                    "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
+                    "missing_pct": missing_pct     # Add count of discontinuities
                 }
             )
             store.put(meta_key, meta, format="fixed")
@@ -577,6 +590,8 @@ class TradesData:
                 # Save discontinuity data as DataFrame
                 if discontinuity_data:
                     disc_df = pd.DataFrame(discontinuity_data)
+                    if appended and integrity_key in store:
+                        disc_df = pd.concat([store[integrity_key], disc_df], ignore_index=True)
                     store.put(integrity_key, disc_df, format="table")
                     logger.info(f"Saved {len(disc_df)} trade ID discontinuities to metadata.")
 
-- 
2.43.0


From 29f66298c954e0dd9abeec8dbbd37e414d2499f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 16/75] fix: find gaps between chronologically consecutive
 trades

---
 finmlkit/bar/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 956336c..81a6818 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -21,9 +21,11 @@ def _find_gaps(key: str, filepath: str, max_gap: pd.Timedelta) -> Tuple[str, lis
     """
     with pd.HDFStore(filepath, mode='r') as store:
         df = store[key]
-        diff_series = df.index.to_series().diff()
+        # a month may have been appended to out of order
+        index = df.index.sort_values()
+        diff_series = index.to_series().diff()
         gap_mask = diff_series > max_gap
-        gap_timestamps = df.index[gap_mask].tolist()
+        gap_timestamps = index[gap_mask].tolist()
         gap_sizes = diff_series[gap_mask].tolist()
 
         # Combine timestamps and gap sizes into tuples
-- 
2.43.0


From 5429fa7590c0a6c2dffcf75451856d974659f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 17/75] fix: time bars of adjacent months do not repeat a
 second

---
 finmlkit/bar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 81a6818..54c5586 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -865,6 +865,9 @@ class TimeBarReader:
 
         df = pd.concat(dfs)
 
+        # The last (empty) interval of a month can be the first one of the next month: keep the latter
+        df = df[~df.index.duplicated(keep="last")]
+
         # Filter by time range if needed - using the index
         if start_time is not None or end_time is not None:
             df = df[(df.index >= start_time if start_time is not None else True) &
-- 
2.43.0


From fd52ad8c360c61448f6e1845faa044f1642a61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 18/75] fix: keep the last requested day of daily bars when it
 is complete

---
 finmlkit/bar/io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 54c5586..adceb46 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -885,8 +885,9 @@ class TimeBarReader:
 
             # For daily bars, if the end date is specified without time component,
             # exclude the last day if it's incomplete
-            last_valid_day = original_end_time - pd.Timedelta(days=1)
-            resampled = resampled[resampled.index <= last_valid_day]
+            last_second = original_end_time + pd.Timedelta(days=1) - pd.Timedelta(seconds=1)
+            if self._list_time_range()[1] < last_second:
+                resampled = resampled[resampled.index < original_end_time]
             return resampled
         else:
             # Resample to the requested timeframe normally
-- 
2.43.0


From bd4e9cc608e7dfde4fe0c53ae405e721a1e893f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 19/75] fix: accept month keys without the group prefix when
 adding time bars

---
 finmlkit/bar/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index adceb46..4c9fe91 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -433,6 +433,8 @@ class AddTimeBarH5:
     def _check_keys(self, keys: list[str]):
         available_keys = self._list_keys()
         if keys:
+            # both "YYYY-MM" and "/trades/YYYY-MM" are accepted
+            keys = [f"/trades/{key.split('/')[-1]}" for key in keys]
             missing_keys = [key for key in keys if key not in available_keys]
             if missing_keys:
                 raise KeyError(f"Missing keys: {missing_keys}\nAvailable keys: {available_keys}")
@@ -468,8 +470,8 @@ class AddTimeBarH5:
         logger = get_logger(__name__)
 
         # Derive timebar key from trade key
-        timebar_key = key.replace('/trades/', '/klines/')
         month_key = key.split('/')[-1]
+        timebar_key = f'/klines/{month_key}'
 
         # Check if time bars already exist
         with pd.HDFStore(self.h5_path, mode='r') as store:
-- 
2.43.0


From 48a3582a8dc7db894b1ab398a3fea5816dff4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 20/75] fix: store exact timestamps in the metadata of trades
 without an integrity flag

---
 finmlkit/bar/data_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index e40fe3e..60533a8 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -565,7 +565,8 @@ class TradesData:
                     "last_timestamp": last_timestamp,
                     "data_integrity_ok": data_ok,  # Add integrity flag to main metadata
                     "missing_pct": missing_pct     # Add count of discontinuities
-                }
+                },
+                dtype=object,  # an unknown (None) integrity flag must not turn the timestamps into floats
             )
             store.put(meta_key, meta, format="fixed")
 
-- 
2.43.0


From 1cfaca7e94a44bf27ac211ce5aef6f1339f91afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:58 +0000
Subject: [PATCH 21/75] fix: resampling a range without bars gives an empty
 frame

---
 finmlkit/bar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/io.py b/finmlkit/bar/io.py
index 4c9fe91..85fa160 100644
--- a/finmlkit/bar/io.py
+++ b/finmlkit/bar/io.py
@@ -876,7 +876,7 @@ class TimeBarReader:
                    (df.index <= end_time if end_time is not None else True)]
 
         # Return original timeframe if no resampling requested
-        if timeframe is None:
+        if timeframe is None or df.empty:
             return df
 
         # If we're resampling to a daily timeframe and we have an incomplete last day,
-- 
2.43.0


From e9021cdc0248a984f9fe13f398dd8aeba6ffca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 22/75] fix: footprints of bars with equally many levels
 survive the conversion to NumPy

---
 finmlkit/bar/data_model.py | 43 +++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/finmlkit/bar/data_model.py b/finmlkit/bar/data_model.py
index 60533a8..68e606a 100644
--- a/finmlkit/bar/data_model.py
+++ b/finmlkit/bar/data_model.py
@@ -942,14 +942,14 @@ class FootprintData:
         """
         instance = cls(
             bar_timestamps=np.array(data[0], dtype=np.int64),
-            price_levels=np.array(data[1], dtype=object),
+            price_levels=_to_object_array(data[1]),
             price_tick=price_tick,
-            buy_volumes=np.array(data[2], dtype=object),
-            sell_volumes=np.array(data[3], dtype=object),
-            buy_ticks=np.array(data[4], dtype=object),
-            sell_ticks=np.array(data[5], dtype=object),
-            buy_imbalances=np.array(data[6], dtype=object),
-            sell_imbalances=np.array(data[7], dtype=object),
+            buy_volumes=_to_object_array(data[2]),
+            sell_volumes=_to_object_array(data[3]),
+            buy_ticks=_to_object_array(data[4]),
+            sell_ticks=_to_object_array(data[5]),
+            buy_imbalances=_to_object_array(data[6]),
+            sell_imbalances=_to_object_array(data[7]),
             buy_imbalances_sum=np.array(data[8], dtype=np.uint16),
             sell_imbalances_sum=np.array(data[9], dtype=np.uint16),
             cot_price_levels=np.array(data[10], dtype=np.int32),
@@ -1035,13 +1035,13 @@ class FootprintData:
         """
         Convert internal lists to NumPy arrays for general-purpose processing.
         """
-        self.price_levels = np.array(self.price_levels, dtype=object)
-        self.buy_volumes = np.array(self.buy_volumes, dtype=object)
-        self.sell_volumes = np.array(self.sell_volumes, dtype=object)
-        self.buy_ticks = np.array(self.buy_ticks, dtype=object)
-        self.sell_ticks = np.array(self.sell_ticks, dtype=object)
-        self.buy_imbalances = np.array(self.buy_imbalances, dtype=object)
-        self.sell_imbalances = np.array(self.sell_imbalances, dtype=object)
+        self.price_levels = _to_object_array(self.price_levels)
+        self.buy_volumes = _to_object_array(self.buy_volumes)
+        self.sell_volumes = _to_object_array(self.sell_volumes)
+        self.buy_ticks = _to_object_array(self.buy_ticks)
+        self.sell_ticks = _to_object_array(self.sell_ticks)
+        self.buy_imbalances = _to_object_array(self.buy_imbalances)
+        self.sell_imbalances = _to_object_array(self.sell_imbalances)
 
     def memory_usage(self):
         """Calculate the approximate memory usage of this object in MB."""
@@ -1089,6 +1089,21 @@ class FootprintData:
 # --------
 # utils
 # --------
+def _to_object_array(arrays) -> NDArray:
+    """
+    Collect the per-bar arrays in a 1D object array.
+
+    ``np.array(arrays, dtype=object)`` would build a 2D array of Python objects when all bars have as many levels.
+
+    :param arrays: Sequence of arrays, one for each bar.
+    :returns: 1D array of the arrays.
+    """
+    result = np.empty(len(arrays), dtype=object)
+    for i, array in enumerate(arrays):
+        result[i] = array
+    return result
+
+
 def _load_single_h5_group(args: Tuple[str, str, Optional[str]]) -> pd.DataFrame:
     """
     Helper function to load a single HDF5 group in a separate process.
-- 
2.43.0


From ebf5e614932ff80d8359b7b2d6cb6e9b02878fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 23/75] fix: stochastic %K was given its high, low and close in
 the wrong order

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 2e99d41..d8e2157 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -300,7 +300,7 @@ class StochK(MISOTransform):
         low = input_dict[self.requires[1]]
         close = input_dict[self.requires[2]]
 
-        result = stoch_k(high, low, close, self.length)
+        result = stoch_k(close, low, high, self.length)
 
         return self._prepare_output_nb(x.index, result)
 
-- 
2.43.0


From eb9e7014099c0448761f9ac9a1c0927758dacddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 24/75] fix: directional run length of one bar, of long runs
 and over missing returns

---
 finmlkit/feature/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d8e2157..f9677c7 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1643,9 +1643,9 @@ class DirRunLen(SISOTransform):
         :return: Array containing directional run lengths
         """
         n = len(x)
-        run_lengths = np.zeros(n, dtype=np.int8)
+        run_lengths = np.zeros(n, dtype=np.int32)
 
-        if n == 0:
+        if n < 2:
             return run_lengths
 
         prev_sign = np.sign(x[1])
@@ -1657,7 +1657,7 @@ class DirRunLen(SISOTransform):
                 current_length += 1
                 run_lengths[i] = current_length
             else:
-                current_length = 1 if sign != 0 else 0
+                current_length = 1 if sign != 0 and not np.isnan(sign) else 0
                 run_lengths[i] = current_length
             prev_sign = sign
 
-- 
2.43.0


From cbf541ff749cab1cca9acaca8fea8acf6498ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 25/75] fix: RSI without losses is 100 in both backends, and
 undefined for a short series

---
 finmlkit/feature/core/momentum.py | 4 ++--
 finmlkit/feature/transforms.py    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 962044b..a1e4d6d 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -49,7 +49,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
 
     avg_gain = sum_gain / window
     avg_loss = sum_loss / window
-    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
 
     # ----- Wilder smoothing -----
     for i in range(window + 1, n):
@@ -60,7 +60,7 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
         avg_gain = ((window - 1) * avg_gain + gain) / window
         avg_loss = ((window - 1) * avg_loss + loss) / window
 
-        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else np.nan
+        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
 
     return out
 
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index f9677c7..a60f9d9 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -249,7 +249,8 @@ class RSIWilder(SISOTransform):
         else:
             rs = float('inf')  # Avoid division by zero
 
-        rsi.iloc[self.window] = 100 - (100 / (1 + rs)) if rs != float('inf') else 100
+        if len(series) > self.window:
+            rsi.iloc[self.window] = 100 - (100 / (1 + rs)) if rs != float('inf') else 100
 
         # Subsequent averages use Wilder's smoothing
         for i in range(self.window + 1, len(series)):
-- 
2.43.0


From 912e3d99080d31b76dfcaa04b3c0efe271188af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 26/75] fix: rate of change, moving average and true range of
 an integer column

---
 finmlkit/feature/core/ma.py         | 2 +-
 finmlkit/feature/core/momentum.py   | 2 +-
 finmlkit/feature/core/volatility.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index 4cf7aee..ea55e83 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -52,7 +52,7 @@ def sma(array: NDArray[np.float64], window: int) -> NDArray[np.float64]:
     :param window: int, window for the rolling average
     :return: np.array, SMA values
     """
-    sma = np.empty_like(array)
+    sma = np.empty(len(array), dtype=np.float64)
     sma.fill(np.nan)
 
     N = window
diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index a1e4d6d..2e91448 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -13,7 +13,7 @@ def roc(price: NDArray, period: int) -> NDArray:
     :return: np.array, ROC values.
     """
     n = len(price)
-    roc = np.empty_like(price)
+    roc = np.empty(n, dtype=np.float64)
     roc[:period] = np.nan  # First 'period' values are NaN
 
     for i in range(period, n):
diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b4b16e7..9e6dda5 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -232,7 +232,7 @@ def true_range(high: NDArray, low: NDArray, close: NDArray) -> NDArray:
     if not (len(high) == len(low) == len(close)):
         raise ValueError("The length of high, low, and close prices must be the same.")
 
-    tr = np.empty_like(high)
+    tr = np.empty(len(high), dtype=np.float64)
 
     # Handle first value specially - just high-low spread if not NaN
     if np.isnan(high[0]) or np.isnan(low[0]):
-- 
2.43.0


From d64068448f61d268e239f890e617d79f7c97b408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 27/75] fix: percentage change in pandas does not pad gaps, is
 undefined on a zero base, and carries its name

---
 finmlkit/feature/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index a60f9d9..5a041af 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -194,7 +194,10 @@ class PctChange(SISOTransform):
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         series = x[self.requires[0]]
-        return series.pct_change(self.periods)
+        base = series.shift(self.periods)
+        outp = ((series - base) / base).where(base > 0)
+        outp.name = self.output_name
+        return outp
 
     def _nb(self, x: Union[pd.DataFrame, pd.Series]) -> pd.Series:
         input_arr = self._prepare_input_nb(x)
-- 
2.43.0


From 5cf60ccd8f7cdbe4d63a777d244692ade5fe86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 28/75] fix: VWAP distance of the first window in logs, and of
 a window without volume

---
 finmlkit/feature/core/reversion.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index afc990a..4501c00 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -30,20 +30,29 @@ def vwap_distance(close: NDArray[np.float64],
 
     wsum = 0.0     # Σ P·V
     vsum = 0.0     # Σ V
+    n_pos = 0      # bars with volume in the window
 
     # initial window
     for k in range(n_periods):
         wsum += close[k] * volume[k]
         vsum += volume[k]
+        n_pos += volume[k] > 0
 
     if vsum > 0:
-        out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
+        if is_log:
+            out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
+        else:
+            out[n_periods-1] = close[n_periods-1] / (wsum / vsum) - 1.0
 
     # rolling update
     for i in range(n_periods, n):
         left_pv = close[i - n_periods] * volume[i - n_periods]
         wsum += close[i] * volume[i] - left_pv
         vsum += volume[i] - volume[i - n_periods]
+        n_pos += int(volume[i] > 0) - int(volume[i - n_periods] > 0)
+        if n_pos == 0:      # drop the rounding residue of the running sums
+            wsum = 0.0
+            vsum = 0.0
 
         if vsum > 0:
             if is_log:
-- 
2.43.0


From 6241a5389464c71fc2d1542321d63d108de3d553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 29/75] fix: EWMA skips missing values, as pandas does

---
 finmlkit/feature/core/ma.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/core/ma.py b/finmlkit/feature/core/ma.py
index ea55e83..0d077ea 100644
--- a/finmlkit/feature/core/ma.py
+++ b/finmlkit/feature/core/ma.py
@@ -29,16 +29,21 @@ def ewma(y: NDArray, span: int) -> NDArray[np.float64]:
         raise ValueError("span size is less than or equal to 1. Please provide a span size greater than 1.")
 
     alpha = 2.0 / (span + 1.0)
-    u_t = y[0]  # Initial value for numerator
-    v_t = 1.0   # Initial value for denominator
-    ewma[0] = u_t / v_t
-
-    for t in range(1, n):
-        # Update the numerator and denominator
-        u_t = y[t] + (1.0 - alpha) * u_t
-        v_t = 1.0 + (1.0 - alpha) * v_t
+    u_t = 0.0  # Initial value for numerator
+    v_t = 0.0  # Initial value for denominator
+
+    for t in range(n):
+        # Update the numerator and denominator; a missing value only decays the earlier weights
+        u_t = (1.0 - alpha) * u_t
+        v_t = (1.0 - alpha) * v_t
+        if not np.isnan(y[t]):
+            u_t += y[t]
+            v_t += 1.0
         # Calculate the EWMA
-        ewma[t] = u_t / v_t
+        if v_t > 0.0:
+            ewma[t] = u_t / v_t
+        else:
+            ewma[t] = ewma[t - 1] if t > 0 else np.nan
 
     return ewma
 
-- 
2.43.0


From f66e00b97da1cdf2280c2860bf80871f195199ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 30/75] fix: a missing value adds no weight to the time-decayed
 deviation

---
 finmlkit/feature/core/volatility.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 9e6dda5..9ecc0d8 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -184,11 +184,12 @@ def ewmst(
 
         yi = y[i]
 
-        # update weight sums
-        V  = alpha       + one_minus * V
-        V2 = alpha*alpha + (one_minus*one_minus) * V2
-
-        # update EWMA sums
+        # update weight and EWMA sums
+        V  = one_minus * V
+        V2 = (one_minus*one_minus) * V2
+        if not np.isnan(yi):
+            V  += alpha
+            V2 += alpha*alpha
         if np.isnan(yi):
             # decay only
             Sy  = one_minus * Sy
-- 
2.43.0


From 2e1d53cdf6d68dc3ddef68850a608b86af1e2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 31/75] fix: variance ratio of a bar depended on how many bars
 follow it

---
 finmlkit/feature/core/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 9ecc0d8..f0b9b44 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -497,7 +497,7 @@ def variance_ratio_1_4_core(price: NDArray[np.float64], window: int, ddof: int,
     n = len(price)
     result = np.full(n, np.nan)
 
-    if n < window + 4:  # Need enough data for 4-bar returns plus window
+    if n < 5:  # Need enough data for one 4-bar return
         return result
 
     # Calculate 1-bar returns
-- 
2.43.0


From bd5b0b3b3087e5f4709d14058c0b1ede9706b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 32/75] fix: bi-power variation scales by pi/2, the inverse
 square of E|Z|

---
 finmlkit/feature/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 5a041af..042283e 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1574,8 +1574,8 @@ class BiPowerVariation(SISOTransform):
         """
         super().__init__(input_col, f"bv_{window}")
         self.window = window
-        # 1 / mu1 where mu1 = E[|Z|] with Z ~ N(0,1)
-        self.mu1_inv_sq = (np.pi / 2)**0.5
+        # 1 / mu1^2 where mu1 = E[|Z|] = sqrt(2 / pi) with Z ~ N(0,1)
+        self.mu1_inv_sq = np.pi / 2
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
         """
-- 
2.43.0


From 9df57f8a885d43fd1f38d3b0fcfe330fafe54d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 33/75] fix: Hurst exponent of a window that does not fit every
 lag

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 042283e..d99e6ff 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1391,7 +1391,7 @@ class HurstExponent(SISOTransform):
         taus = np.asarray(taus)
 
         if np.all(taus > 0):
-            slope, _ = np.polyfit(np.log(lags), np.log(taus), 1)
+            slope, _ = np.polyfit(np.log(lags[:len(taus)]), np.log(taus), 1)
             return slope  # std-slope = H
         return np.nan
 
-- 
2.43.0


From 1ce79bceadce00ecdc7b82aacba8e14c49983dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 34/75] fix: daily gap compared midnight with the last but one
 bar of the day that follows it

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d99e6ff..0bd15da 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1100,7 +1100,7 @@ class DailyGap(SISOTransform):
         midnight_close = series.resample('D').first()
 
         # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
-        prev_2345_close = series.shift(1).resample('D').last()
+        prev_2345_close = series.resample('D').last().shift(1)
 
         # Calculate the gap as percentage change
         daily_gap = (midnight_close - prev_2345_close) / prev_2345_close
-- 
2.43.0


From c8a71aabfd1a9f0440dcc85962d281c317a967af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 35/75] fix: time window returns decide the lag in integer
 nanoseconds

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 6bc180e..359cef2 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -36,7 +36,7 @@ def comp_lagged_returns(timestamps: NDArray[np.int64], close: NDArray[np.float64
     n = len(close)
     returns = np.empty(n, dtype=np.float64)
     returns.fill(np.nan)
-    ret_window_ns = return_window_sec * 1e9
+    ret_window_ns = max(1, int(round(return_window_sec * 1e9)))
 
     # Find the first index where the lookback window is fully contained
     start_idx = np.searchsorted(timestamps, timestamps[0] + ret_window_ns, side='left')
-- 
2.43.0


From 02317ad959eb3ff787f0464a0c92c99dec0f624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 36/75] fix: burst ratio of a window with a missing value,
 which the compiled median ignored

---
 finmlkit/feature/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 359cef2..1a66f25 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -103,7 +103,7 @@ def comp_burst_ratio(series: NDArray[np.float64], window: int) -> NDArray[np.flo
 
     for i in prange(window - 1, n):
         series_window = series[i - window + 1: i + 1]
-        med = np.median(series_window)
+        med = np.nan if np.isnan(series_window).any() else np.median(series_window)
         out[i] = series[i]/med if med>0 else np.nan
     return out
 
-- 
2.43.0


From c36bdb655e27051fb41f66c77e4f6e10f0c7ce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 37/75] fix: average true range of a bar without prices is
 undefined wherever it stands, not only at the third bar

---
 finmlkit/feature/core/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index f0b9b44..a77a6b0 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -407,8 +407,8 @@ def atr(high: NDArray[np.float64],
     else:
         # SMA-based ATR calculation
         for i in range(window-1, n):
-            # Handle the special case for index 2 (NaN in input)
-            if i == 2 and np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
+            # A bar without prices has no ATR
+            if np.isnan(high[i]) and np.isnan(low[i]) and np.isnan(close[i]):
                 atr_values[i] = np.nan
                 continue
 
-- 
2.43.0


From 812c6f77889b6a3dc9c699ad32e16d29dd5a89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 38/75] fix: simultaneous trades at neighbouring prices of a
 small tick were merged into one

---
 finmlkit/bar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index a1a3dee..807c4b7 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -299,7 +299,7 @@ def merge_split_trades(
     merged_idx = 0
     for i in range(1, n):
         same_trade = (timestamps[i] == merged_timestamps[merged_idx] and
-                      abs(prices[i] - merged_prices[merged_idx]) < 1e-8)
+                      abs(prices[i] - merged_prices[merged_idx]) <= 1e-12 * abs(merged_prices[merged_idx]))
 
         if with_side:
             same_trade &= is_buyer_maker[i] == (merged_side[merged_idx] == -1)
-- 
2.43.0


From ef254d5cacbfe0bb011ce80d3717a9f0fd7888cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 39/75] fix: time return, percentage change, time-decayed
 deviation and bar rate keep their window through a saved configuration

---
 finmlkit/feature/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 0bd15da..d349f12 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -102,6 +102,7 @@ class ReturnT(SISOTransform):
         window_sec = window.total_seconds()
         output_col = f"ret{window_sec}s" if window_sec > 1e-6 else "ret1"
         super().__init__(input_col, output_col)
+        self.window = window
         self.window_sec = window_sec
         self.is_log = is_log
 
@@ -190,6 +191,7 @@ class PctChange(SISOTransform):
         :return: The percentage change of the signal.
         """
         super().__init__(input_col, f"pctc{window}")
+        self.window = window
         self.periods = window
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
@@ -322,6 +324,7 @@ class EWMST(SISOTransform):
         """
         half_life_sec = half_life.total_seconds()
         super().__init__(input_col, f"ewms{half_life_sec}s")
+        self.half_life = half_life
         self.half_life_sec = half_life_sec
 
     def _pd(self, x):
@@ -1239,6 +1242,7 @@ class BarRate(SISOTransform):
 
         super().__init__(input_col, output_name)
         self.out_name = output_name
+        self.window = window
         self.window_sec = window_sec
 
     def _pd(self, x: pd.DataFrame) -> pd.Series:
-- 
2.43.0


From c1cdc962a549b722a805266d51c25a6d11d30d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 40/75] fix: a composed transform consumed a column of the
 frame instead of the previous step's output

---
 finmlkit/feature/kit.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 341e6a9..eeb48ed 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -666,8 +666,8 @@ class Compose(BaseTransform):
         """
         Apply the composed transforms to the input DataFrame with caching/optimization:
         - If the final output already exists in the input DataFrame, return it immediately.
-        - For each step, if its output exists in the DataFrame, reuse it rather than recomputing.
-        - Prefer DataFrame-provided required column(s) when available; else use the prior step's output.
+        - A step whose output on the prior step exists in the DataFrame is reused rather than recomputed.
+        - Every other step consumes the prior step's output, whatever its required column is called.
         :param x: DataFrame to transform
         :param backend: Backend is already specified in the transforms
         :return: Transformed Series
@@ -680,11 +680,13 @@ class Compose(BaseTransform):
             return x[final_name]
 
         current_series = None
+        chained = True  # the steps so far are named after one another, so that a column can stand for their output
         for i, tfs in enumerate(self.transforms):
-            out_name = tfs.produces[0]
+            out_name = tfs.output_name
+            chained = chained and (i == 0 or tfs.requires == [self.transforms[i - 1].output_name])
 
             # If this step's output already exists, reuse it
-            if out_name in x.columns:
+            if chained and out_name in x.columns:
                 current_series = x[out_name]
                 continue
 
@@ -692,13 +694,9 @@ class Compose(BaseTransform):
                 # First transform: operate on full DataFrame x
                 current_series = tfs(x, backend=backend)
             else:
-                # Subsequent transforms: prefer required column from DataFrame if available,
-                # otherwise use the prior step's series as the required input column.
+                # Subsequent transforms: the prior step's series is the required input column
                 req_col = tfs.requires[0]
-                if req_col in x.columns:
-                    df_in = x[[req_col]]
-                else:
-                    df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
+                df_in = pd.DataFrame(current_series.values, index=current_series.index, columns=[req_col])
                 current_series = tfs(df_in, backend=backend)
 
             # Optionally cache into x for downstream steps to reuse (without mutating original reference)
@@ -706,8 +704,7 @@ class Compose(BaseTransform):
             # If consumers expect caching to materialize, FeatureKit handles DataFrame accumulation.
 
         # Return the final output Series with the composed name
-        current_series.name = final_name
-        return current_series
+        return current_series.rename(final_name)
 
     def __call__(self, x: pd.DataFrame, *, backend="nb") -> pd.Series:
         """
-- 
2.43.0


From 9a07105662560377dfd63b211b29a070b9fe6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 41/75] fix: the names given to the columns of a multi-output
 feature were ignored

---
 finmlkit/feature/kit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index eeb48ed..4e9b552 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -1056,8 +1056,8 @@ class FeatureKit:
                 df[feat.transform.output_name] = res  # cache the result in the DataFrame (for compose transforms)
             elif isinstance(res, tuple):
                 # Multi output transform case
-                for item in res:
-                    out[item.name] = item
+                for name, item in zip(feat.name, res):
+                    out[name] = item
                     df[item.name] = item  # cache the result in the DataFrame (for compose transforms)
             else:
                 raise TypeError(f"Transform {feat} returned unexpected type: {type(res)}")
-- 
2.43.0


From 110c8ca341ae2d44186dd26b15c3c4855a2e6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 42/75] fix: topological order knows the columns of renamed and
 of multi-output features, and is reproducible

---
 finmlkit/feature/kit.py   |  4 ++--
 finmlkit/feature/utils.py | 20 +++++++++++---------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 4e9b552..058ff6e 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -983,7 +983,7 @@ class FeatureKit:
         # Compute topo order among feature names only (ignore input nodes)
         g = self.build_graph()
         names = [str(f.name) for f in self.features]
-        name_set = set(names)
+        name_set = dict.fromkeys(names)  # keeps the order of definition
         # Build subgraph edges between feature nodes
         edges = {n: set() for n in name_set}
         indeg = {n: 0 for n in name_set}
@@ -1000,7 +1000,7 @@ class FeatureKit:
         while zero:
             n = zero.pop(0)
             order.append(n)
-            for d in list(edges.get(n, [])):
+            for d in [m for m in name_set if m in edges[n]]:
                 indeg[d] -= 1
                 if indeg[d] == 0:
                     zero.append(d)
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index d6fad11..72ec9b5 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -358,8 +358,12 @@ def _flatten_requires(t: BaseTransform) -> List[str]:
 
 def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
     g = ComputationGraph()
-    # Map of feature output names for cross-referencing
-    outputs = {str(f.name): f for f in features if isinstance(f.name, (str,))}
+    # Map of the columns that the features produce (whatever they are renamed to) for cross-referencing
+    outputs = {}
+    for f in features:
+        produced = f.transform.output_name
+        for col in [produced] if isinstance(produced, str) else list(produced):
+            outputs.setdefault(col, str(f.name))
 
     def _child_out_names(t: BaseTransform) -> List[str]:
         if isinstance(t, (BinaryOpTransform, MinMaxOpTransform)):
@@ -386,12 +390,10 @@ def build_feature_graph(features: List["Feature"]) -> ComputationGraph:
             g.add_edge(in_node, out_name)
         # Edges from child transforms if those outputs are also features
         for child_out in _child_out_names(f.transform):
-            if child_out in outputs and child_out != out_name:
-                g.add_edge(child_out, out_name)
+            if outputs.get(child_out, out_name) != out_name:
+                g.add_edge(outputs[child_out], out_name)
         # Back-compat: dependencies on other features if require equals other feature's output
-        for other_name in outputs.keys():
-            if other_name == out_name:
-                continue
-            if other_name in reqs:
-                g.add_edge(other_name, out_name)
+        for r in reqs:
+            if outputs.get(r, out_name) != out_name:
+                g.add_edge(outputs[r], out_name)
     return g
-- 
2.43.0


From 81557a97691e5209ac02e76670a6c63752513bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 43/75] fix: the column of an applied function had another name
 after a saved configuration was loaded

---
 finmlkit/feature/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 72ec9b5..6f9e762 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -259,7 +259,9 @@ def transform_from_config(cfg: Dict[str, Any]) -> BaseTransform:
         op = _maybe_unary_from_name(op_name)
         if op is None:
             raise ValueError(f"Unsupported unary op: {op_name}")
-        return UnaryOpTransform(child, op_name, op)
+        t = UnaryOpTransform(child, op_name, op)
+        t.produces = list(cfg.get("produces") or t.produces)  # a function is applied under the name of its feature
+        return t
     if kind == "compose":
         # lazy import to avoid circular dependency at import-time
         from finmlkit.feature.kit import Compose  # type: ignore
-- 
2.43.0


From 66f18a5c9f3424cb8f08d4b98588ec9a20ca58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 44/75] fix: an unadjusted EMA shared the name of the adjusted
 one and was loaded as such

---
 finmlkit/feature/kit.py   | 2 +-
 finmlkit/feature/utils.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/kit.py b/finmlkit/feature/kit.py
index 058ff6e..f290254 100644
--- a/finmlkit/feature/kit.py
+++ b/finmlkit/feature/kit.py
@@ -397,7 +397,7 @@ class Feature:
         :param adjust: Whether to adjust the EMA calculation (default is True)
         :return: A new Feature with EMA values
         """
-        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}")
+        return self.apply(lambda x: x.ewm(span=span, adjust=adjust).mean(), suffix=f"ema{span}" if adjust else f"ema{span}_noadj")
 
     def rolling_sum(self, window):
         """
diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 6f9e762..312f0fb 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -113,9 +113,10 @@ def _maybe_unary_from_name(name: str):
             n = int(name[len(base):])
             return lambda x: x.rolling(window=n).sum()
         if name.startswith("ema"):
-            n = int(name[len("ema"):])
             # Default to adjust=True (matches Feature.ema default)
-            return lambda x: x.ewm(span=n, adjust=True).mean()
+            adjust = not name.endswith("_noadj")
+            n = int(name[len("ema"):].removesuffix("_noadj"))
+            return lambda x: x.ewm(span=n, adjust=adjust).mean()
         if name.startswith("lag"):
             n = int(name[len("lag"):])
             return lambda x: x.shift(n)
-- 
2.43.0


From 5313653682a70f804cba89d36e9c08f7e09a8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 45/75] fix: structural break statistic of the last bar was
 missing when exactly the warmup precedes it

---
 finmlkit/feature/core/structural_break/cusum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/structural_break/cusum.py b/finmlkit/feature/core/structural_break/cusum.py
index f2688e2..96a3203 100644
--- a/finmlkit/feature/core/structural_break/cusum.py
+++ b/finmlkit/feature/core/structural_break/cusum.py
@@ -226,7 +226,7 @@ def cusum_test_rolling(
     if window_size < warmup_period + 2:
         window_size = warmup_period + 2  # Minimum window size to allow for calculations
 
-    if n < warmup_period + 2:
+    if n < warmup_period + 1:
         return snt_up, snt_down, critical_values_up, critical_values_down  # Not enough data to process
 
     if n > window_size:
-- 
2.43.0


From a07da65a599440ace1d2878463c9ee538dcd18ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 46/75] fix: age of a structural break wrapped around beyond
 255 bars

---
 finmlkit/feature/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index d349f12..cf8abbe 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -699,10 +699,11 @@ class CUSUMTest(SIMOTransform):
         # Calculate age features (bars since last break)
         # For each flag=1, we start a new group, then count within that group
         age_up = flag_up_series.groupby((flag_up_series == 1).cumsum()).cumcount()
-        age_up = age_up.clip(0, self.max_age).astype(np.uint8).values
+        age_dtype = np.min_scalar_type(max(self.max_age, 0))  # uint8 up to 255 bars
+        age_up = age_up.clip(0, self.max_age).astype(age_dtype).values
 
         age_down = flag_down_series.groupby((flag_down_series == 1).cumsum()).cumcount()
-        age_down = age_down.clip(0, self.max_age).astype(np.uint8).values
+        age_down = age_down.clip(0, self.max_age).astype(age_dtype).values
 
         # Return all features
         return self._prepare_output_nb(
-- 
2.43.0


From 7f5516e3e4a3d7daea1904179dd0958c5f66a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 47/75] fix: developing volume profile of a range that starts
 later than the first bar was written outside its result

---
 finmlkit/feature/core/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 38a6bbb..9f28c32 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -562,9 +562,9 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
             poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
                                                                va_pct)
 
-        poc_prices[t] = poc_price
-        hva_prices[t] = hva_price
-        lva_prices[t] = lva_price
+        poc_prices[t - start_idx] = poc_price
+        hva_prices[t - start_idx] = hva_price
+        lva_prices[t - start_idx] = lva_price
 
     return ts[start_idx:end_idx], poc_prices, hva_prices, lva_prices
 
-- 
2.43.0


From abc0601fe26ac387a414a984ad9a5344623c4590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 48/75] fix: developing volume profile saw the price range of
 later bars, and failed before the first trade

---
 finmlkit/feature/core/volume.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 9f28c32..4649e59 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -543,13 +543,16 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
 
         developing_total_volumes = developing_buy_volumes + developing_sell_volumes
 
+        # Levels that were not traded yet are no part of the profile
+        current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
+                                                                             developing_total_volumes)
+        if len(current_price_levels) == 0:
+            continue
+
         # Bucket price levels
         if n_bins is not None:
             assert price_tick is not None, "Price tick should be provided for bucketing price levels correctly..."
 
-            # Before bucketing, we have to trim the trailing zeros
-            current_price_levels, developing_total_volumes = trim_trailing_zeros(price_levels_window,
-                                                                                 developing_total_volumes)
             # Bucket the price levels and volumes
             bucketed_price_levels, bucketed_total_volumes = bucket_price_levels(current_price_levels,
                                                                                 developing_total_volumes, n_bins)
@@ -559,7 +562,7 @@ def volume_profile_developing(ts: np.ndarray, highs: np.ndarray, lows: np.ndarra
                                                                va_pct)
         else:
             # Calculate the POC, HVA, and LVA
-            poc_price, hva_price, lva_price = comp_poc_hva_lva(price_levels_window, developing_total_volumes,
+            poc_price, hva_price, lva_price = comp_poc_hva_lva(current_price_levels, developing_total_volumes,
                                                                va_pct)
 
         poc_prices[t - start_idx] = poc_price
-- 
2.43.0


From e0291fb9839a471b4b719d6ebd8888b3e635a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 49/75] fix: volume profile window was truncated by a
 nanosecond when its seconds are not a binary fraction

---
 finmlkit/feature/core/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 4649e59..df4e0a3 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -420,7 +420,7 @@ def volume_profile_rolling(ts: np.ndarray, highs: np.ndarray, lows: np.ndarray,
     lva_prices = np.zeros(n_bars, dtype=np.int32)
     vp_pct_abv_poc = np.zeros(n_bars, dtype=np.float32)  # New array for percentage above POC
 
-    window_interval_ns = int(window_size_sec * 1e9)
+    window_interval_ns = int(round(window_size_sec * 1e9))
     first_interval_idx = np.searchsorted(ts, ts[0] + window_interval_ns)
 
 
-- 
2.43.0


From 52d45b32da1f276133258786fd7050908b636e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 50/75] fix: volume profile of a range lost the first bar of
 its window when its seconds are not a binary fraction

---
 finmlkit/feature/core/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index df4e0a3..1d5cdaf 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -112,7 +112,7 @@ class VolumePro:
 
         start = pd.to_datetime(start)
         # Subtract the window size from the start timestamp to eliminate the first window warm-up
-        adjusted_start = start - pd.Timedelta(seconds=self.window_size_sec)
+        adjusted_start = start - pd.Timedelta(round(self.window_size_sec * 1e9), unit='ns')
 
         # Use FootprintBT's slicing to get the range
         fp_data_subset = fp_data[adjusted_start:end]
-- 
2.43.0


From fea7ca11cc2b8ee1068f63d0e126ec8c670db0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 51/75] fix: time bars could not be built for periods whose
 seconds are not a binary fraction

---
 finmlkit/bar/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/bar/base.py b/finmlkit/bar/base.py
index 3d11394..8c73b34 100644
--- a/finmlkit/bar/base.py
+++ b/finmlkit/bar/base.py
@@ -164,7 +164,7 @@ class BarBuilderBase(ABC):
 
         # if there is a self.interval attribute, set the frequency to the interval
         if hasattr(self, 'interval'):
-            ohlcv_df.index.freq = pd.Timedelta(seconds=self.interval)
+            ohlcv_df.index.freq = pd.Timedelta(round(self.interval * 1e9), unit='ns')
 
         return ohlcv_df
 
-- 
2.43.0


From 3df80ab54a1ccdce2d00dfd2041289e46b8a41e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 52/75] fix: a time window was loaded a nanosecond shorter than
 it was saved

---
 finmlkit/feature/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/utils.py b/finmlkit/feature/utils.py
index 312f0fb..6ff8d37 100644
--- a/finmlkit/feature/utils.py
+++ b/finmlkit/feature/utils.py
@@ -42,7 +42,7 @@ def _deserialize_value(val: Any) -> Any:
     except Exception:  # pragma: no cover
         pd = None
     if isinstance(val, dict) and val.get("__timedelta__") and pd is not None:
-        return pd.Timedelta(seconds=val["seconds"])  # type: ignore[arg-type]
+        return pd.Timedelta(round(val["seconds"] * 1e9), unit="ns")  # type: ignore[arg-type]
     if isinstance(val, list):
         return [_deserialize_value(v) for v in val]
     if isinstance(val, dict):
-- 
2.43.0


From 642de69cba4056ad7e65f41085b6d571e5491abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 53/75] fix: bar rate counted over a nanosecond less than its
 window

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index cf8abbe..52f18fe 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1265,7 +1265,7 @@ class BarRate(SISOTransform):
         ones = pd.Series(1, index=x.index)
 
         # Use rolling window with time-based window size
-        window_td = pd.Timedelta(seconds=self.window_sec)
+        window_td = self.window
 
         # Count occurrences within the rolling window
         result = ones.rolling(window=window_td, closed='both').sum() / self.window_sec * 3600  # Convert to rate per hour
-- 
2.43.0


From 56f710fde35f09089eecb29b089f148f1c4cdca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 54/75] fix: a barrier touched exactly at the minimum close
 time was missed when its seconds are not a binary fraction

---
 finmlkit/label/tbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/tbm.py b/finmlkit/label/tbm.py
index ac02d2d..4441815 100644
--- a/finmlkit/label/tbm.py
+++ b/finmlkit/label/tbm.py
@@ -69,7 +69,7 @@ def triple_barrier(
         vertical_barrier_ns = span_ns
     else:
         vertical_barrier_ns = np.int64(np.round(vertical_barrier * 1e9))
-    min_close_time_ns = min_close_time_sec * 1e9    # Convert to nanoseconds
+    min_close_time_ns = np.round(min_close_time_sec * 1e9)    # Convert to nanoseconds
 
     log_close = np.log(close)  # Precompute log of close prices for efficiency
 
-- 
2.43.0


From 625fd83948d2e635eef5b3b06eea706da90d9b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 55/75] fix: inferred price tick of steps such as 0.25, and of
 prices off the grid of their steps

---
 finmlkit/bar/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/finmlkit/bar/utils.py b/finmlkit/bar/utils.py
index 807c4b7..b6861cf 100644
--- a/finmlkit/bar/utils.py
+++ b/finmlkit/bar/utils.py
@@ -66,12 +66,19 @@ def comp_price_tick_size(prices: NDArray[np.float64]) -> float:
         return 0.0
 
     diffs = np.diff(unique_prices)
-    scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
+    min_scale = 10.0 ** (-np.floor(np.log10(np.min(diffs[diffs > 0]))))
+    scale = min_scale
+    # The leading digit of the smallest step does not tell a tick such as 0.25: find the digits that hold every price
+    for extra_digits in range(7):
+        scaled_px = unique_prices * (min_scale * 10.0 ** extra_digits)
+        if np.max(np.abs(scaled_px - np.round(scaled_px))) <= 1e-6 + 1e-15 * np.max(np.abs(scaled_px)):
+            scale = min_scale * 10.0 ** extra_digits
+            break
     int_px = np.round(unique_prices * scale).astype(np.int64)
 
     # Calculate greatest common divisor
     # tick_int = np.gcd.reduce(np.diff(int_px))  # numba does not support it
-    tick_int = 0
+    tick_int = int_px[0]  # every price is a whole number of ticks, not only every step
     for diff_int in np.diff(int_px):
         if diff_int > 0:
             tick_int = diff_int if tick_int == 0 else math.gcd(tick_int, diff_int)
-- 
2.43.0


From 759fe184ccf4f11f29d493fdb54c39cbe7d978fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 56/75] fix: time windows, time-decayed deviation and time cues
 misread a datetime index of another resolution than nanoseconds

---
 finmlkit/feature/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/base.py b/finmlkit/feature/base.py
index 04d5585..a444e3a 100644
--- a/finmlkit/feature/base.py
+++ b/finmlkit/feature/base.py
@@ -295,7 +295,7 @@ class CoreTransform(BaseTransform, ABC):
 
         """
         self._check_datetime_index(x)
-        return x.index.values.astype(np.int64)
+        return x.index.values.astype("datetime64[ns]").astype(np.int64)
 
     # --- to be implemented by children --------------------------------------
     @abstractmethod
-- 
2.43.0


From 1693a7052c78f500c632039ef373c6b90d0c8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 57/75] fix: events on a datetime index of another resolution
 than nanoseconds were placed at the first trade

---
 finmlkit/label/kit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 776ea1f..95f9b52 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -285,7 +285,7 @@ class TBMLabel:
         if "event_idx" in self._features.columns:
             event_idx = self._features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype("datetime64[ns]").astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
-- 
2.43.0


From e3bca8b3f2ae1d6999a5e795af08d1ced4eb220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 58/75] fix: daily gap of bars on a time zone aware index was
 always missing

---
 finmlkit/feature/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 52f18fe..ddf9dd1 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1114,7 +1114,7 @@ class DailyGap(SISOTransform):
         for date, gap in daily_gap.items():
             if not np.isnan(gap):
                 # Find the first timestamp in the original series for this day
-                day_start = pd.Timestamp(date.year, date.month, date.day)
+                day_start = date.normalize()
 
                 # If this timestamp exists in the original index, set the gap value
                 if day_start in result.index:
-- 
2.43.0


From 62965b731c1d3b348a17bf0fa01b3c87002b33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 59/75] fix: pandas price-volume correlation was infinite over
 bars of constant volume or return

---
 finmlkit/feature/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index ddf9dd1..a6d0849 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -795,6 +795,8 @@ class PriceVolumeCorrelation(MISOTransform):
 
         # Calculate rolling correlation
         result = df['returns'].rolling(window=self.window).corr(df['volume'])
+        # Without variation in the window the correlation is undefined; rounding may leave it infinite
+        result = result.replace([np.inf, -np.inf], np.nan)
 
         # Special case for perfect correlations to match tests and numba implementation
         if len(x) >= 10 and self.window == 4:  # Test data is usually 10 points long with window=4
-- 
2.43.0


From 574037ab85f10f3c5984120f61aab3df40abea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 60/75] fix: Bollinger %B lost small deviations to running sums
 of squares, and all later bars to one missing close

---
 finmlkit/feature/core/volatility.py | 33 +++++++++++------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index a77a6b0..278d619 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -311,27 +311,18 @@ def bollinger_percent_b(close: NDArray[np.float64],
     if n < window:
         return out
 
-    # initialize rolling sum variables
-    rolling_sum = 0.0
-    rolling_sum_sq = 0.0
-    for k in range(window):
-        rolling_sum += close[k]
-        rolling_sum_sq += close[k] ** 2
-
-    mean = rolling_sum / window
-    var = (rolling_sum_sq - window * mean * mean) / (window - 1)
-    sd = np.sqrt(max(var, 0.0))
-    lower = mean - num_std * sd
-    upper = mean + num_std * sd
-    out[window - 1] = (close[window - 1] - lower) / (upper - lower) if upper > lower else np.nan
-
-    for i in range(window, n):
-        # rolling update
-        rolling_sum += close[i] - close[i - window]
-        rolling_sum_sq += close[i] ** 2 - close[i - window] ** 2
-        mean = rolling_sum / window
-        var = (rolling_sum_sq - window * mean ** 2) / (window - 1)
-        sd = np.sqrt(max(var, 0.0))
+    for i in range(window - 1, n):
+        # Each window on its own, as offsets from its first close: running sums of squares lose small deviations to rounding
+        first = close[i - window + 1]
+        mean_offset = 0.0
+        for k in range(i - window + 1, i + 1):
+            mean_offset += close[k] - first
+        mean_offset /= window
+        sum_sq = 0.0
+        for k in range(i - window + 1, i + 1):
+            sum_sq += (close[k] - first - mean_offset) ** 2
+        mean = first + mean_offset
+        sd = np.sqrt(sum_sq / (window - 1))
         lower = mean - num_std * sd
         upper = mean + num_std * sd
         out[i] = (close[i] - lower) / (upper - lower) if upper > lower else np.nan
-- 
2.43.0


From c0b753ebcd89148aafad13f16cfa4751621d8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 61/75] fix: z-score of equal values was not missing when their
 mean is rounded

---
 finmlkit/feature/core/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/utils.py b/finmlkit/feature/core/utils.py
index 1a66f25..9a594db 100644
--- a/finmlkit/feature/core/utils.py
+++ b/finmlkit/feature/core/utils.py
@@ -79,13 +79,14 @@ def comp_zscore(x: NDArray[np.float64], window: int, ddof: int) -> NDArray[np.fl
     z_scores.fill(np.nan)
 
     for i in prange(window - 1, n):
-        window_data = x[i - window + 1: i + 1]
+        # Offsets from the first value, so that equal values deviate by exactly zero
+        window_data = x[i - window + 1: i + 1] - x[i - window + 1]
         mean = np.mean(window_data)
         # Manual calculation of standard deviation with ddof
         variance = np.sum((window_data - mean) ** 2) / (len(window_data) - ddof)
         std = np.sqrt(variance)
         if std != 0:
-            z_scores[i] = (x[i] - mean) / std
+            z_scores[i] = (window_data[-1] - mean) / std
 
     return z_scores
 
-- 
2.43.0


From f591d49aa9a9ff539535f596314b622f037ef5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 62/75] fix: deviation of a single observation was rounding
 noise when missing values followed it

---
 finmlkit/feature/core/volatility.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index 278d619..b7a3d1d 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -37,8 +37,10 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
     S_y = 0.0    # Cumulative sum of weighted y
     S_y2 = 0.0   # Cumulative sum of weighted y^2
 
+    n_obs = 0    # Number of observations
     for t in range(n):
         y_t = y[t]
+        n_obs += 0 if np.isnan(y_t) else 1
 
         # Update cumulative weights regardless of NaN
         S_w = one_minus_alpha * S_w + (0.0 if np.isnan(y_t) else 1.0)
@@ -57,7 +59,8 @@ def ewms(y: NDArray[np.float64], span: int) -> NDArray[np.float64]:
         if S_w > 0.0:
             mean = S_y / S_w
             denominator = S_w - (S_w2 / S_w)
-            if denominator > 0.0:
+            # The deviation of a single observation is undefined, whatever rounding leaves of its weight
+            if n_obs > 1 and denominator > 0.0:
                 variance = (S_y2 / S_w - mean ** 2) * S_w / denominator
                 variance = max(variance, 0.0)  # Ensure non-negative variance
                 ewm_std[t] = np.sqrt(variance)
@@ -170,6 +173,7 @@ def ewmst(
     V2  = 0.0    # sum of squared weights
     Sy  = 0.0    # EWMA sum of y
     Syy = 0.0    # EWMA sum of y^2
+    n_obs = 0    # number of observations with a weight
     last_ts = timestamps[0]
     out[0] = np.nan
 
@@ -190,6 +194,7 @@ def ewmst(
         if not np.isnan(yi):
             V  += alpha
             V2 += alpha*alpha
+            n_obs += 1 if alpha > 0.0 else 0
         if np.isnan(yi):
             # decay only
             Sy  = one_minus * Sy
@@ -205,7 +210,7 @@ def ewmst(
             var_raw= ewma_y2 - mean*mean
             # bias correction
             denom = V - (V2 / V) if V > 0.0 else 0.0
-            if denom > 0.0 and var_raw > 0.0:
+            if n_obs > 1 and denom > 0.0 and var_raw > 0.0:
                 var = var_raw * (V / denom)
             else:
                 var = 0.0
-- 
2.43.0


From 987f263b611b233533a741e306265b7c696d2999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 63/75] fix: a refused labelling left the features of the
 refused trades beside the earlier labels

---
 finmlkit/label/kit.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 95f9b52..10a88c0 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -280,27 +280,28 @@ class TBMLabel:
         """
         if not isinstance(trades, TradesData):
             raise ValueError("Trades must be an instance of TradesData.")
-        self._features = self._drop_trailing_events(trades)
+        features = self._drop_trailing_events(trades)
 
-        if "event_idx" in self._features.columns:
-            event_idx = self._features.event_idx.values
+        if "event_idx" in features.columns:
+            event_idx = features.event_idx.values
         else:
-            event_idx = np.searchsorted(trades.data.timestamp.values, self._features.index.values.astype("datetime64[ns]").astype(np.int64))
+            event_idx = np.searchsorted(trades.data.timestamp.values, features.index.values.astype("datetime64[ns]").astype(np.int64))
 
         # Call the triple_barrier function
         labels, touch_idx, rets, max_rb_ratios = triple_barrier(
             timestamps=trades.data.timestamp.values,
             close=trades.data.price.values,
             event_idxs=event_idx,
-            targets=self.target_returns.values,
+            targets=features[self.target_ret_col].values,
             horizontal_barriers=self.horizontal_barriers,
             vertical_barrier=self.vertical_barrier,
             min_close_time_sec=self.min_close_time_sec,
-            side=self.features['side'].values.astype(np.int8) if self.is_meta else None,
+            side=features['side'].values.astype(np.int8) if self.is_meta else None,
             min_ret=self.min_ret
         )
 
-        # Construct the output DataFrame
+        # Construct the output DataFrame (only now: a refused call leaves the earlier labels and their features)
+        self._features = features
         self._out = pd.DataFrame({
             'touch_time': pd.to_datetime(trades.data.timestamp.values[touch_idx]),
             'event_idx': event_idx,
-- 
2.43.0


From d12e815905b2e64b44c57f43e678f9dc100a5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:42 +0000
Subject: [PATCH 64/75] fix: time decay with the documented intercept of -1
 divided by zero

---
 finmlkit/label/weights.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/finmlkit/label/weights.py b/finmlkit/label/weights.py
index 275275a..5372cf2 100644
--- a/finmlkit/label/weights.py
+++ b/finmlkit/label/weights.py
@@ -127,6 +127,10 @@ def time_decay(
     if cum_avg_uniqueness[-1] == 0.0:
         raise ValueError("The sum of all average uniqueness weights must be grater than 0.")
 
+    if last_weight == -1.0:
+        # Everything older than the newest is erased; the line would be vertical
+        return (cum_avg_uniqueness == cum_avg_uniqueness[-1]).astype(np.float64)
+
     if last_weight >= 0.0:
         slope = (1. - last_weight) / cum_avg_uniqueness[-1]
     else:
-- 
2.43.0


From 1b35a1e24b79a178c15f319007a58fa57daab9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:52 +0000
Subject: [PATCH 65/75] fix: price-volume correlation of equal volumes was zero
 when their mean is rounded

---
 finmlkit/feature/core/correlation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/core/correlation.py b/finmlkit/feature/core/correlation.py
index 3d295ce..c20a129 100644
--- a/finmlkit/feature/core/correlation.py
+++ b/finmlkit/feature/core/correlation.py
@@ -96,8 +96,9 @@ def rolling_price_volume_correlation(price: NDArray[np.float64],
             std_returns += dev_returns * dev_returns
             std_volume += dev_volume * dev_volume
 
-        # Calculate correlation
-        if std_returns > 0 and std_volume > 0:
+        # Calculate correlation; of equal values it is undefined (their rounded mean may leave a spread)
+        vary = max(valid_returns) > min(valid_returns) and max(valid_volumes) > min(valid_volumes)
+        if vary and std_returns > 0 and std_volume > 0:
             corr = cov / (np.sqrt(std_returns) * np.sqrt(std_volume))
 
             # Ensure the result is within valid range
-- 
2.43.0


From 1e37e502b31a0b5e0a78e402046999ddcfa81fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 66/75] fix: normalized ATR was left in units of price where
 the mid price is unknown

---
 finmlkit/feature/core/volatility.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volatility.py b/finmlkit/feature/core/volatility.py
index b7a3d1d..d793d0f 100644
--- a/finmlkit/feature/core/volatility.py
+++ b/finmlkit/feature/core/volatility.py
@@ -428,8 +428,10 @@ def atr(high: NDArray[np.float64],
     if normalize:
         mid_price = (high + low) / 2.0
         for i in range(n):
-            if not np.isnan(atr_values[i]) and not np.isnan(mid_price[i]) and mid_price[i] > 0:
+            if mid_price[i] > 0:
                 atr_values[i] = atr_values[i] / mid_price[i]
+            else:  # not known as a share of an unknown price
+                atr_values[i] = np.nan
 
     return atr_values
 
-- 
2.43.0


From 7bb55c6e2f4b97b7ffc01d963b53ab79510667f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 67/75] fix: daily gap put the first known price of a day at
 its midnight, before it was known

---
 finmlkit/feature/transforms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index a6d0849..9b09ae0 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1102,8 +1102,9 @@ class DailyGap(SISOTransform):
         # Ensure the index is sorted
         series = series.sort_index()
 
-        # Get close prices at 00:00 UTC (first value of each day)
-        midnight_close = series.resample('D').first()
+        # Get close prices at 00:00 UTC
+        midnight_close = series[series.index == series.index.normalize()]
+        midnight_close = midnight_close[~midnight_close.index.duplicated()]
 
         # Get close prices at 23:45 UTC from previous day (last value of each day after shifting)
         prev_2345_close = series.resample('D').last().shift(1)
-- 
2.43.0


From b3006350c378f21ef08cbdf7ce5256e7f92bfe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:43 +0000
Subject: [PATCH 68/75] fix: RSI took unknown prices for the strongest trend,
 in one backend

---
 finmlkit/feature/core/momentum.py | 6 +++---
 finmlkit/feature/transforms.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index 2e91448..a7e2be4 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -49,18 +49,18 @@ def rsi_wilder(close: NDArray[np.float64], window: int) -> NDArray[np.float64]:
 
     avg_gain = sum_gain / window
     avg_loss = sum_loss / window
-    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
+    out[window] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss != 0 else 100.0
 
     # ----- Wilder smoothing -----
     for i in range(window + 1, n):
         diff = close[i] - close[i - 1]
         gain = diff if diff > 0.0 else 0.0
-        loss = -diff if diff < 0.0 else 0.0
+        loss = 0.0 if diff > 0.0 else -diff  # an unknown change stays unknown
 
         avg_gain = ((window - 1) * avg_gain + gain) / window
         avg_loss = ((window - 1) * avg_loss + loss) / window
 
-        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss > 0 else 100.0
+        out[i] = 100.0 - 100.0 / (1.0 + avg_gain / avg_loss) if avg_loss != 0 else 100.0
 
     return out
 
diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index 9b09ae0..a4c1e37 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -241,8 +241,8 @@ class RSIWilder(SISOTransform):
         rsi = pd.Series(np.nan, index=series.index)
 
         # First average is simple average
-        first_avg_gain = gains.iloc[1:self.window + 1].mean()
-        first_avg_loss = losses.iloc[1:self.window + 1].mean()
+        first_avg_gain = gains.iloc[1:self.window + 1].mean(skipna=False)
+        first_avg_loss = losses.iloc[1:self.window + 1].mean(skipna=False)
 
         # Use Wilder's smoothing method
         avg_gain = first_avg_gain
-- 
2.43.0


From fec8867c53caaf2a12938c5b82fb76a2f16fdc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:36 +0000
Subject: [PATCH 69/75] fix: price-volume correlation of incomplete columns
 differed between the backends

---
 finmlkit/feature/transforms.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index a4c1e37..da57d14 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -784,8 +784,8 @@ class PriceVolumeCorrelation(MISOTransform):
         price_col = self.requires[0]
         volume_col = self.requires[1]
 
-        # Calculate returns
-        returns = x[price_col].pct_change()
+        # Calculate returns, unknown where a price is or where it is zero before
+        returns = x[price_col].pct_change(fill_method=None).replace([np.inf, -np.inf], np.nan)
 
         # Create a DataFrame with returns and volume
         df = pd.DataFrame({
@@ -793,8 +793,10 @@ class PriceVolumeCorrelation(MISOTransform):
             'volume': x[volume_col]
         })
 
-        # Calculate rolling correlation
-        result = df['returns'].rolling(window=self.window).corr(df['volume'])
+        # Calculate rolling correlation of what is known in the window, from the first window of returns on
+        result = df['returns'].rolling(window=self.window, min_periods=min(2, self.window)).corr(df['volume'])
+        result[df.isna().any(axis=1)] = np.nan
+        result.iloc[:self.window] = np.nan
         # Without variation in the window the correlation is undefined; rounding may leave it infinite
         result = result.replace([np.inf, -np.inf], np.nan)
 
-- 
2.43.0


From 5c3fb2919e37c88e60ae258787fd7935d01d9ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 70/75] fix: VWAP distance stayed unknown for ever after one
 unknown bar

---
 finmlkit/feature/core/reversion.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/finmlkit/feature/core/reversion.py b/finmlkit/feature/core/reversion.py
index 4501c00..72fef3f 100644
--- a/finmlkit/feature/core/reversion.py
+++ b/finmlkit/feature/core/reversion.py
@@ -31,14 +31,20 @@ def vwap_distance(close: NDArray[np.float64],
     wsum = 0.0     # Σ P·V
     vsum = 0.0     # Σ V
     n_pos = 0      # bars with volume in the window
+    n_nan = 0      # bars of unknown price or volume in the window
 
     # initial window
     for k in range(n_periods):
+        if np.isnan(close[k] * volume[k]):
+            n_nan += 1
+            continue
         wsum += close[k] * volume[k]
         vsum += volume[k]
         n_pos += volume[k] > 0
 
-    if vsum > 0:
+    if n_nan > 0:
+        out[n_periods-1] = np.nan
+    elif vsum > 0:
         if is_log:
             out[n_periods-1] = np.log(close[n_periods-1] / (wsum / vsum))
         else:
@@ -46,15 +52,22 @@ def vwap_distance(close: NDArray[np.float64],
 
     # rolling update
     for i in range(n_periods, n):
-        left_pv = close[i - n_periods] * volume[i - n_periods]
-        wsum += close[i] * volume[i] - left_pv
-        vsum += volume[i] - volume[i - n_periods]
-        n_pos += int(volume[i] > 0) - int(volume[i - n_periods] > 0)
+        left, left_pv = volume[i - n_periods], close[i - n_periods] * volume[i - n_periods]
+        new, new_pv = volume[i], close[i] * volume[i]
+        if np.isnan(left_pv):       # was not counted
+            left, left_pv, n_nan = 0.0, 0.0, n_nan - 1
+        if np.isnan(new_pv):
+            new, new_pv, n_nan = 0.0, 0.0, n_nan + 1
+        wsum += new_pv - left_pv
+        vsum += new - left
+        n_pos += int(new > 0) - int(left > 0)
         if n_pos == 0:      # drop the rounding residue of the running sums
             wsum = 0.0
             vsum = 0.0
 
-        if vsum > 0:
+        if n_nan > 0:
+            out[i] = np.nan
+        elif vsum > 0:
             if is_log:
                 out[i] = np.log(close[i] / (wsum/vsum))
             else:
-- 
2.43.0


From d8036bdd9aa60e9ee5ae55ebd65d091cfe6d89ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 71/75] fix: stochastic %K stayed unknown for long after an
 unknown high or low had left its window

---
 finmlkit/feature/core/momentum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/momentum.py b/finmlkit/feature/core/momentum.py
index a7e2be4..4ee4e75 100644
--- a/finmlkit/feature/core/momentum.py
+++ b/finmlkit/feature/core/momentum.py
@@ -100,7 +100,8 @@ def stoch_k(
         # otherwise only compare the new bar.
         out_idx = t - length
 
-        if low[out_idx] == lo or high[out_idx] == hi:
+        # an unknown extreme, or one that enters, is unknown as long as it is in the window
+        if low[out_idx] == lo or high[out_idx] == hi or np.isnan(lo + hi + low[t] + high[t]):
             lo = np.min(low[t - length + 1:t + 1])
             hi = np.max(high[t - length + 1:t + 1])
         else:
-- 
2.43.0


From 3408da9e1a0c5de5152230e5b4a78b08d046b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 72/75] fix: flow acceleration stayed unknown for ever after
 one unknown volume

---
 finmlkit/feature/core/volume.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index 1d5cdaf..c73e39a 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -599,10 +599,15 @@ def comp_flow_acceleration(
     # prefix cumsum array
     S = np.empty(n+1, np.float64)
     S[0] = 0.0
+    unknown = np.zeros(n+1, np.int64)
     for i in range(n):
-        S[i+1] = S[i] + volumes[i]
+        is_nan = np.isnan(volumes[i])
+        S[i+1] = S[i] + (0.0 if is_nan else volumes[i])
+        unknown[i+1] = unknown[i] + is_nan
 
     for i in prange(window - 1, n):
+        if unknown[i+1] > unknown[i+1 - window]:
+            continue               # unknown volume in the window
         recent_sum = S[i+1] - S[i+1 - recent_periods]
         past_sum   = S[i+1 - recent_periods] - S[i+1 - window]
         out[i] = np.log((recent_sum + eps) / (past_sum + eps))
-- 
2.43.0


From cc7f3a492090f6a39f0bf9a22b3d27a0f13a9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:07 +0000
Subject: [PATCH 73/75] fix: opening range breaks are set on their own bar when
 bars share a timestamp

---
 finmlkit/feature/transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/finmlkit/feature/transforms.py b/finmlkit/feature/transforms.py
index da57d14..1fd50cc 100644
--- a/finmlkit/feature/transforms.py
+++ b/finmlkit/feature/transforms.py
@@ -1196,18 +1196,18 @@ class ORBBreak(MIMOTransform):
                 opening_range_high = first_hour_data[self.requires[0]].max()
                 opening_range_low = first_hour_data[self.requires[1]].min()
 
-                # Check for breakouts in the rest of the day (after the first hour)
+                # Check for breakouts in the rest of the day (after the first hour), by position: bars may share a timestamp
+                day_pos = x.index.searchsorted(first_timestamp)
                 for i in range(4, len(day_data)):
-                    timestamp = day_data.index[i]
                     close_price = day_data[self.requires[2]].iloc[i]
 
                     # Check for upward breakout
                     if close_price > opening_range_high:
-                        orb_long.loc[timestamp] = True
+                        orb_long.iloc[day_pos + i] = True
 
                     # Check for downward breakout
                     if close_price < opening_range_low:
-                        orb_short.loc[timestamp] = True
+                        orb_short.iloc[day_pos + i] = True
 
         return orb_long, orb_short
 
-- 
2.43.0


From 12cf6aae9d695b957df935d3f8987c079a1b4d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:41 +0000
Subject: [PATCH 74/75] fix: an event with unknown features is dropped also
 when a later one shares its timestamp

---
 finmlkit/label/kit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/finmlkit/label/kit.py b/finmlkit/label/kit.py
index 10a88c0..1d8a2de 100644
--- a/finmlkit/label/kit.py
+++ b/finmlkit/label/kit.py
@@ -155,15 +155,15 @@ class TBMLabel:
     def _preprocess_features(x: pd.DataFrame, target_ret_col: str, min_ret: float,
                              horizontal_barriers: tuple[float, float]) -> pd.DataFrame:
         # Remove the leading NaNs from the features DataFrame
-        first_valid_indices = [x[col].first_valid_index() for col in x.columns if
-                               x[col].first_valid_index() is not None]
+        # (by position: events may share a timestamp)
+        first_valid_indices = [x[col].notna().values.argmax() for col in x.columns if x[col].notna().any()]
 
         if not first_valid_indices:
             raise ValueError("All columns contain only NaN values.")
 
         # Use the latest of the first valid indices
         start_idx = max(first_valid_indices)
-        x = x.loc[start_idx:]
+        x = x.iloc[start_idx:]
 
         # Filter out rows where the target return is below the minimum required return threshold
         max_mult = np.max(horizontal_barriers)
-- 
2.43.0


From a57a7f6f9ff1cbeaeafb014ed344a8846635c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:41 +0000
Subject: [PATCH 75/75] fix: volume profiles of bars that share a timestamp
 ignore later bars, and ranges of them can be computed

---
 finmlkit/feature/core/volume.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/finmlkit/feature/core/volume.py b/finmlkit/feature/core/volume.py
index c73e39a..e59af55 100644
--- a/finmlkit/feature/core/volume.py
+++ b/finmlkit/feature/core/volume.py
@@ -114,14 +114,10 @@ class VolumePro:
         # Subtract the window size from the start timestamp to eliminate the first window warm-up
         adjusted_start = start - pd.Timedelta(round(self.window_size_sec * 1e9), unit='ns')
 
-        # Use FootprintBT's slicing to get the range
-        fp_data_subset = fp_data[adjusted_start:end]
-
-        # Convert bar_timestamps to DatetimeIndex to match bar index format
-        fp_datetime_index = pd.to_datetime(fp_data_subset.bar_timestamps, unit='ns')
-
-        # Align bar with the footprint data using the datetime index
-        bars_subset = bars.loc[fp_datetime_index]
+        # Locate the range by position: bars may share a timestamp
+        start_idx, end_idx = pd.to_datetime(fp_data.bar_timestamps, unit='ns').slice_locs(adjusted_start, end)
+        fp_data_subset = fp_data[start_idx:end_idx]
+        bars_subset = bars.iloc[start_idx:end_idx]
 
         # Call the compute method for the subset
         poc_prices, hva_prices, lva_prices, vp_pct_above_poc = self.compute(bars_subset, fp_data_subset)
@@ -428,7 +424,8 @@ def volume_profile_rolling(ts: np.ndarray, highs: np.ndarray, lows: np.ndarray,
         end_ts = int(ts[i])
         start_ts = int(end_ts - window_interval_ns)
 
-        all_price_levels, total_buy_volumes, total_sell_volumes = aggregate_footprint(ts, highs, lows,
+        all_price_levels, total_buy_volumes, total_sell_volumes = aggregate_footprint(ts[:i + 1],  # no later bar of this timestamp
+                                                                                      highs[:i + 1], lows[:i + 1],
                                                                                       price_levels,
                                                                                       buy_volumes,
                                                                                       sell_volumes,
-- 
2.43.0

