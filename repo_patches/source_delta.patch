From 9640600665b1aae7acb6cd9bfb67c938d79c9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 01/62] fix: data_aligned_at_events lost last event before an
 indexed stop event

---
 beam_telescope_analysis/tools/analysis_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..91f748f 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -522,6 +522,7 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
             if stop_indices.shape[0] != 0:  # set the stop index if possible, stop index is excluded
                 stop_index = stop_indices[0]
                 stop_index_known = True
+                table_max_rows = stop_index  # index is aligned to the events, the last event is complete
 
     if start_index_known and stop_index_known and start_index + chunk_size >= stop_index:  # special case, one read is enough, data not bigger than one chunk and the indices are known
         yield table.read(start=start_index, stop=stop_index), stop_index
-- 
2.43.0


From 17e4a570f55ec547380d3e12fc43ec209f5ddb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 02/62] fix: data_aligned_at_events returned not aligned first
 event for smaller start event number

---
 beam_telescope_analysis/tools/analysis_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 91f748f..7b7f4a6 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -545,10 +545,10 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
                     if array_chunk.shape[0] == chunk_size and first_event_in_chunk == last_event_in_chunk:
                         raise ValueError('Chunk size too small. Increase chunk size to fit full event.')
 
-                    if not first_event_aligned and first_event_in_chunk == start_event_number and start_index != 0 and start_index == current_start_index:  # first event in first chunk not aligned at index 0, so take next event
+                    if not first_event_aligned and first_event_in_chunk >= start_event_number and start_index != 0 and start_index == current_start_index:  # first event in first chunk not aligned at index 0, so take next event
                         if fail_on_missing_events:
                             raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
-                        chunk_start_index = np.searchsorted(array_chunk["event_number"], start_event_number + 1, side='left')
+                        chunk_start_index = np.searchsorted(array_chunk["event_number"], first_event_in_chunk + 1, side='left')
                     elif fail_on_missing_events and first_event_in_chunk > start_event_number and start_index == current_start_index:
                         raise ValueError('The start event %d is missing. Change start_event_number.' % start_event_number)
                     elif first_event_aligned and first_event_in_chunk == start_event_number and start_index == current_start_index:
-- 
2.43.0


From 7a192706a8011373dd765eb9ec56565f6fce68dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 03/62] fix: SMC hid failures of its threads or never returned

---
 beam_telescope_analysis/tools/smc.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..beb717e 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -156,6 +156,7 @@ class SMC(object):
         self.out_file = None
         self.out_file_opened = Event()
         self.force_stop = Event()
+        self.exception = None
         self.data_deque = deque()
         self.res_deque = deque()
         self.reader_thread = None
@@ -326,20 +327,31 @@ class SMC(object):
             self.force_stop.set()
             raise
 
+    def _run_thread(self, target):
+        ''' Stop all threads if one of them fails, the exception is raised in the main thread.
+        '''
+        try:
+            target()
+        except Exception as e:
+            if self.exception is None:
+                self.exception = e
+            self.force_stop.set()
+
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
+        self.exception = None
 
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run_thread, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run_thread, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run_thread, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -352,10 +364,18 @@ class SMC(object):
         self.writer_thread.join()
         self.writer_thread = None
 
-        self.pool.close()
+        if self.exception is None:
+            self.pool.close()
+        else:
+            self.pool.terminate()
         self.pool.join()
         self.pool = None
 
+        if self.exception is not None:
+            if self.out_file is not None and self.out_file.isopen:
+                self.out_file.close()
+            raise self.exception
+
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From d50b4430b6589b3fc5ded335cb14e8f611ae489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 04/62] fix: SMC summed multidimensional histograms of
 different shape wrongly

---
 beam_telescope_analysis/tools/smc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index beb717e..ef8a55a 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -291,11 +291,12 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    if np.any(new_shape != hists[i].shape):
+                        new_hist = np.zeros(shape=new_shape, dtype=hists[i].dtype)
+                        new_hist[tuple(slice(0, n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = new_hist
+                    # Add array to result
+                    hists[i][tuple(slice(0, n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From eec12341b510a1ccc9fd7ab30242c2e7b9ef60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 05/62] fix: SMC changed node description given by the user

---
 beam_telescope_analysis/tools/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index ef8a55a..f4b8dfb 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -97,7 +97,7 @@ class SMC(object):
         node_desc = {} if node_desc is None else node_desc
         if not isinstance(node_desc, (list, tuple)):
             node_desc = (node_desc,)
-        self.node_desc = node_desc
+        self.node_desc = [dict(curr_node_desc) for curr_node_desc in node_desc]  # is changed here, do not change parameter
         self.node_name = None
         self.chunk_size = chunk_size
         self.mode = mode
-- 
2.43.0


From 8030898adc9be3affbb4fe5eb29c93406dfa6617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 06/62] fix: event number functions accessed elements of empty
 arrays

---
 .../cpp/AnalysisFunctions.h                    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..759ba29 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -22,8 +22,10 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	unsigned int tActualResultIndex = 0;
+	if (rSizeArrayTwo == 0)  // no intersection, do not access empty array
+		return 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
-		if (rEventArrayOne[i] == tActualEventNumber)  // omit the same event number occuring again
+		if (i > 0 && rEventArrayOne[i] == tActualEventNumber)  // omit the same event number occuring again
 			continue;
 		tActualEventNumber = rEventArrayOne[i];
 		for (unsigned int j = tActualIndex; j < rSizeArrayTwo; ++j) {
@@ -43,6 +45,15 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
+	if (rSizeArrayOne == 0 || rSizeArrayTwo == 0) {  // only events of the other array, do not access empty array
+		const unsigned int tSize = std::max(rSizeArrayOne, rSizeArrayTwo);
+		if (tSize > rSizeArrayResult)
+			throw std::out_of_range("The result histogram is too small. Increase size.");
+		for (unsigned int k = 0; k < tSize; ++k)
+			result[k] = (rSizeArrayOne == 0) ? rEventArrayTwo[k] : rEventArrayOne[k];
+		return tSize;
+	}
+
 	int64_t tFirstActualEventNumber = rEventArrayOne[0];
 	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
 	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
@@ -126,9 +137,12 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
+	if (rSizeArrayTwo == 0) {  // nothing is selected, do not access empty array
+		std::fill(rSelection, rSelection + rSizeArrayOne, 0);
+		return;
+	}
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
 		tActualEventNumber = rEventArrayOne[i];
 		for (unsigned int j = tActualIndex; j < rSizeArrayTwo; ++j) {
-- 
2.43.0


From 55b0fd21960bc5a86e3fe011a5fa6bbea42531e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 07/62] fix: get_data_in_event_range returned rows outside of
 the range and failed for open ranges

---
 beam_telescope_analysis/tools/analysis_utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 7b7f4a6..7970d53 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -7,7 +7,6 @@ import os
 import errno
 
 import numpy as np
-import numexpr as ne
 import numba
 from numba import njit
 from scipy.interpolate import splrep, sproot
@@ -416,8 +415,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         hit array with the hits in the event range.
     '''
     event_number = array['event_number']
-    if not np.any(event_number):  # No events in selection
-        return np.array([])
+    if event_number.shape[0] == 0:  # No events in selection
+        return array[0:0]
     if assume_sorted:
         data_event_start = event_number[0]
         data_event_stop = event_number[-1]
@@ -431,7 +430,7 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
             if event_number[0] > event_start:
                 min_index_data = 0
             else:
-                min_index_data = np.argmin(event_number < event_start)
+                min_index_data = np.searchsorted(event_number, event_start, side='left')
 
         if event_stop is None:
             max_index_data = event_number.shape[0]
@@ -439,13 +438,18 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
             if event_number[-1] < event_stop:
                 max_index_data = event_number.shape[0]
             else:
-                max_index_data = np.argmax(event_number >= event_stop)
+                max_index_data = np.searchsorted(event_number, event_stop, side='left')
 
         if min_index_data < 0:
             min_index_data = 0
         return array[min_index_data:max_index_data]
     else:
-        return array[ne.evaluate('(event_number >= event_start) & (event_number < event_stop)')]
+        selection = np.ones(event_number.shape, dtype=bool)
+        if event_start is not None:
+            selection &= (event_number >= event_start)
+        if event_stop is not None:
+            selection &= (event_number < event_stop)
+        return array[selection]
 
 
 def data_aligned_at_events(table, start_event_number=None, stop_event_number=None, start_index=None, stop_index=None, chunk_size=1000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
-- 
2.43.0


From 184b488751d3e7666e9c98cf3476dfb32459c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 08/62] fix: lines parallel to the plane raised RuntimeError
 instead of giving nan intersections

---
 beam_telescope_analysis/tools/geometry_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..3f9b3bf 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -129,7 +129,6 @@ def get_line_intersections_with_plane(line_origins, line_directions, position_pl
 
     # Warn if some intersection cannot be calculated
     if np.any(norm_dot_dir == 0):
-        raise
         logging.warning('Some line plane intersection could not be calculated')
 
     # Calculate t scalar for each line simultaniously, avoid division by 0
-- 
2.43.0


From a5b72da6de56725fc8acad515b64bcd0b26bf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 09/62] fix: cartesian_to_spherical lost the azimuth angle of
 directions with x = 0

---
 beam_telescope_analysis/tools/geometry_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 3f9b3bf..ecbcd3d 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -156,12 +156,13 @@ def cartesian_to_spherical(x, y, z):
     Spherical coordinates phi, theta and r.
     '''
     r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    phi = np.zeros_like(r, dtype=np.float64)  # phi = 0 for r = 0
     theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
     # Avoid division by zero
     # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    phi[r != 0] = np.arctan2(y[r != 0], x[r != 0])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    phi[phi >= 2. * np.pi] = 0.0  # rounding of very small negative angles
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
 
-- 
2.43.0


From b32e506c9393a3487952b285d489a37ae166abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 10/62] fix: spherical_to_cartesian rejected the direction of
 the negative z axis

---
 beam_telescope_analysis/tools/geometry_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index ecbcd3d..ac01882 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -183,8 +183,8 @@ def spherical_to_cartesian(phi, theta, r):
     '''
     if np.any(r < 0):
         raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(theta < 0) or np.any(theta > np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi]')
     if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
         raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
     x = r * np.cos(phi) * np.sin(theta)
-- 
2.43.0


From b2b5d738c21899788d61a6ce7d867b2fe11ababa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:54 +0000
Subject: [PATCH 11/62] fix: euler_angles failed for rotation matrices with
 gimbal lock

---
 beam_telescope_analysis/tools/geometry_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index ac01882..b08bf22 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -324,14 +324,14 @@ def euler_angles(R):
     if not is_rotation_matrix(R):
         raise ValueError("%s is not a rotation matrix" % str(R))
 
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
+    if np.isclose(R[2, 0], -1.0, rtol=0.0, atol=1e-14):
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = gamma_1 + np.arctan2(R[0, 1], R[0, 2])
+        beta_1 = np.pi / 2
+    elif np.isclose(R[2, 0], 1.0, rtol=0.0, atol=1e-14):
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = -gamma_1 + np.arctan2(-R[0, 1], -R[0, 2])
+        beta_1 = -np.pi / 2
     else:
         beta_1 = -np.arcsin(R[2, 0])
         # for very small values use 0.0 and remove minus sign from 0.0
-- 
2.43.0


From e05b4d16c796ea73107386b03269605232f21c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 12/62] fix: convert_coordinates failed if the output file is
 given

---
 beam_telescope_analysis/hit_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..79312bf 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -109,6 +109,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-- 
2.43.0


From b7db8672d7bcf216141d9560f5e4c14cf7c460f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 13/62] fix: converting local coordinates to indices returned
 neighboring pixels

---
 beam_telescope_analysis/hit_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 79312bf..279ae56 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -166,11 +166,14 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # index of the pixel, center of the pixel is an integer number
+                    out_data['column'] = np.clip(np.around(column), 1, dut.n_columns)
+                    out_data['row'] = np.clip(np.around(row), 1, dut.n_rows)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From 061faa58a0c12b10156aedfd7fcdb5389b94f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 14/62] fix: files were processed with the geometry of another
 DUT if select_duts is not sorted

---
 beam_telescope_analysis/hit_analysis.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 279ae56..38f239a 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -62,11 +62,12 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -216,11 +217,12 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -471,11 +473,12 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -711,11 +714,12 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
@@ -1279,7 +1283,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Correlating %d DUTs ===', len(select_duts))
 
-- 
2.43.0


From 6fa36438730b5820e4a5a9b23df71f1ae2d88231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 15/62] fix: creation date given as time structure was not
 stored

---
 beam_telescope_analysis/tools/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 2014297..2401045 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -53,7 +53,7 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
         elif isinstance(date_created, time.struct_time):
-            time.asctime(date_created)
+            scan_param_table.attrs.date_created = time.asctime(date_created)
         else:
             scan_param_table.attrs.date_created = time.asctime()
         scan_param_table.attrs.bta_version = bta_version
-- 
2.43.0


From 19d56e3129229ec0d2a05822f653506bdcb1225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 16/62] fix: analysis steps failed after finishing if an
 argument has non-ASCII characters

---
 beam_telescope_analysis/tools/storage_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 2401045..e213f7d 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -48,7 +48,8 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         row_scan_param = scan_param_table.row
         for key, value in dictionary.items():
             row_scan_param['name'] = key
-            row_scan_param['value'] = str(value)
+            value = str(value)
+            row_scan_param['value'] = value if isinstance(value, bytes) else value.encode('utf-8')
             row_scan_param.append()
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
-- 
2.43.0


From 3daf8c136a89fea392fe25494a4a336643ea9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 17/62] fix: combining files failed or shifted event numbers
 wrongly if a table is empty

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..0e57cb3 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -100,7 +100,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows > 0:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From 5c66086fc1527434d8d2cd7fe59b6d708029615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 18/62] fix: select_tracks failed with query strings containing
 functions, numbers in exponential format or names like variables

---
 beam_telescope_analysis/tools/data_selection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 0e57cb3..709d75b 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -480,7 +479,6 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    variables = {name: arr[name] for name in arr.dtype.names}  # expose variables; not a copy, this is just a reference
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=variables, global_dict={}, casting="safe")]
-- 
2.43.0


From 5da9b4f576b2252d31d5e362961d3af477b9a241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 19/62] fix: select_tracks failed after writing the tracks if
 nothing is selected by a criterion

---
 beam_telescope_analysis/tools/data_selection.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 709d75b..b92808b 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -473,11 +473,21 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (
+                    percentage(n_tracks_query, total_n_tracks),
+                    percentage(n_tracks_hit_mask, total_n_tracks),
+                    percentage(n_tracks_quality_mask, n_tracks_hit_mask),
+                    percentage(n_tracks_iso_track_mask, n_tracks_quality_mask),
+                    percentage(n_tracks_iso_hit_mask, n_tracks_iso_track_mask),
+                    percentage(n_tracks_query, n_tracks_iso_hit_mask)))
 
     return output_tracks_file
 
 
+def percentage(n_selected, n_total):
+    return 100.0 * n_selected / n_total if n_total else 0.0  # nothing to select from
+
+
 def table_where(arr, query_str):
     variables = {name: arr[name] for name in arr.dtype.names}  # expose variables; not a copy, this is just a reference
 
-- 
2.43.0


From 5a978330cb0c293104532d0d60aab151638c0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 20/62] fix: seed positions of clusters of local positions were
 stored as unsigned integers

---
 beam_telescope_analysis/hit_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 38f239a..46f00e5 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1002,8 +1002,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
             ('n_hits', '<u4'),
             ('charge', '<f4'),
             ('frame', '<u2'),
-            ('seed_x', '<u2'),
-            ('seed_y', '<u2'),
+            ('seed_x', '<f8'),
+            ('seed_y', '<f8'),
             ('mean_x', '<f8'),
             ('mean_y', '<f8')])
     else:
-- 
2.43.0


From 7fc67abff1b1839c11d00efc729c9ab676e4ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 21/62] fix: full 4x4 cluster was counted as another shape in
 the cluster shape histogram

---
 beam_telescope_analysis/hit_analysis.py     | 2 +-
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 46f00e5..1adde92 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1139,7 +1139,7 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
     # Calculate cluster shape histogram
     def cluster_shape_hist_func(clusters):
         cluster_shape = clusters['cluster_shape']
-        hist, _ = np.histogram(a=cluster_shape, bins=np.arange(2**16))
+        hist, _ = np.histogram(a=cluster_shape, bins=np.arange(2**16 + 1))
         return hist
 
     smc.SMC(
diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index db9e88d..f2f299a 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -461,7 +461,7 @@ def plot_cluster_hists(telescope_configuration=None, input_cluster_file=None, in
                         total_n_hits += np.sum(cluster_n_hits)
                         total_n_clusters += cluster_n_hits.shape[0]
                         # limit cluster shape histogram to cluster size 4x4
-                        edges = np.arange(2**(4 * 4))
+                        edges = np.arange(2**(4 * 4) + 1)
                         if initialize:
                             initialize = False
 
-- 
2.43.0


From 0abd958f34255c6f5e9699f270d99250166135a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 22/62] fix: indices were clustered instead of positions if the
 hit table has both and the positions come first

---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 1adde92..33ca017 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1089,7 +1089,7 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 disabled_pixels=disabled_pixels)
         else:
             cluster_hits, clusters = clusterizer.cluster_hits(
-                hits=hits,
+                hits=hits[[name for name in hits.dtype.names if name not in ('column', 'row')]] if copy_hit_indices else hits,  # clusterizer uses column and row internally
                 noisy_pixels=noisy_pixels,
                 disabled_pixels=disabled_pixels)
         if copy_hit_indices:
-- 
2.43.0


From 3435ba43ab06f1c51082d9b78253a00687a04cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:57 +0000
Subject: [PATCH 23/62] fix: masking pixels failed if noisy pixels and given
 pixels are disabled

---
 beam_telescope_analysis/hit_analysis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 33ca017..7ddad5e 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -616,6 +616,10 @@ def mask_pixels(dut, input_hit_file, pixel_mask_name="NoisyPixelMask", output_ma
             if n_new_masked_pixels == 0 or (iterations and i >= iterations):
                 break
         logging.info('Masked %d pixels in total at threshold %.1f', np.count_nonzero(pixel_mask), threshold)
+        # Both masks have the same name, store a single mask
+        if disable_mask is not None and pixel_mask_name == 'DisabledPixelMask':
+            pixel_mask |= disable_mask
+            disable_mask = None
 
         # Create masked pixels array for noisy pixels
         masked_pixel_table = out_file_h5.create_carray(
-- 
2.43.0


From 1bee439201dac124b9871aa71a23b898c6667c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:50 +0000
Subject: [PATCH 24/62] fix: clusters of events after the last event of DUT0
 were not merged

---
 beam_telescope_analysis/hit_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 7ddad5e..f566b37 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1627,12 +1627,14 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
 
             for actual_cluster_dut_0, start_indices_data_loop[0] in analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size):  # Loop over the cluster of DUT0 in chunks
                 actual_event_numbers = actual_cluster_dut_0['event_number']
+                # With the last chunk of DUT0, read the other DUTs to the end, since these DUTs could have events after the last event of DUT0
+                actual_stop_event_number = None if start_indices_data_loop[0] >= in_file_h5.root.Clusters.shape[0] else actual_event_numbers[-1] + 1
 
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
-- 
2.43.0


From 6fd26a3d2278c0115620f16c8712b88ad884232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 25/62] fix: correlation histograms had one bin too many or too
 few for some pixel sizes, entries were written outside of the histogram

---
 beam_telescope_analysis/hit_analysis.py | 31 +++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index f566b37..3179e35 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -85,6 +85,11 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
     return output_files
 
 
+def _get_n_bins(size, resolution):
+    '''Number of bins of given resolution needed to cover the size, without adding or losing a bin due to limited floating point precision.'''
+    return max(1, int(math.ceil(round(size / resolution, 6))))
+
+
 @save_arguments
 def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_local=True, chunk_size=1000000):
     '''Convert index to local coordinates and vice versa.
@@ -317,14 +322,16 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             y_size = y_extent[1] - y_extent[0]
             # Hist size
             x_center = 0.0
-            hist_x_size = math.ceil(x_size / resolution[0]) * resolution[0]
+            hist_x_bins = _get_n_bins(x_size, resolution[0])
+            hist_x_size = hist_x_bins * resolution[0]
             hist_x_extent = [x_center - hist_x_size / 2.0, x_center + hist_x_size / 2.0]
             y_center = 0.0
-            hist_y_size = math.ceil(y_size / resolution[1]) * resolution[1]
+            hist_y_bins = _get_n_bins(y_size, resolution[1])
+            hist_y_size = hist_y_bins * resolution[1]
             hist_y_extent = [y_center - hist_y_size / 2.0, y_center + hist_y_size / 2.0]
             # Creating histograms for the correlation
-            x_correlation = np.zeros([int(hist_x_size / resolution[0]), int(hist_x_size / resolution[0])], dtype=np.int32)
-            y_correlation = np.zeros([int(hist_y_size / resolution[1]), int(hist_y_size / resolution[1])], dtype=np.int32)
+            x_correlation = np.zeros([hist_x_bins, hist_x_bins], dtype=np.int32)
+            y_correlation = np.zeros([hist_y_bins, hist_y_bins], dtype=np.int32)
 
             # shape_column = (dut.n_columns, dut.n_columns)
             # shape_row = (dut.n_rows, dut.n_rows)
@@ -1334,21 +1341,25 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 dut_y_size = dut_y_extent[1] - dut_y_extent[0]
                 # Reference hist size
                 ref_x_center = telescope[ref_index].translation_x
-                ref_hist_x_size = math.ceil(ref_x_size / resolution[0]) * resolution[0]
+                ref_hist_x_bins = _get_n_bins(ref_x_size, resolution[0])
+                ref_hist_x_size = ref_hist_x_bins * resolution[0]
                 ref_hist_x_extent.append([ref_x_center - ref_hist_x_size / 2.0, ref_x_center + ref_hist_x_size / 2.0])
                 ref_y_center = telescope[ref_index].translation_y
-                ref_hist_y_size = math.ceil(ref_y_size / resolution[1]) * resolution[1]
+                ref_hist_y_bins = _get_n_bins(ref_y_size, resolution[1])
+                ref_hist_y_size = ref_hist_y_bins * resolution[1]
                 ref_hist_y_extent.append([ref_y_center - ref_hist_y_size / 2.0, ref_y_center + ref_hist_y_size / 2.0])
                 # DUT hist size
                 dut_x_center = telescope[dut_index].translation_x
-                dut_hist_x_size = math.ceil(dut_x_size / resolution[0]) * resolution[0]
+                dut_hist_x_bins = _get_n_bins(dut_x_size, resolution[0])
+                dut_hist_x_size = dut_hist_x_bins * resolution[0]
                 dut_hist_x_extent.append([dut_x_center - dut_hist_x_size / 2.0, dut_x_center + dut_hist_x_size / 2.0])
                 dut_y_center = telescope[dut_index].translation_y
-                dut_hist_y_size = math.ceil(dut_y_size / resolution[1]) * resolution[1]
+                dut_hist_y_bins = _get_n_bins(dut_y_size, resolution[1])
+                dut_hist_y_size = dut_hist_y_bins * resolution[1]
                 dut_hist_y_extent.append([dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0])
                 # Creating histograms for the correlation
-                x_correlations.append(np.zeros([int(dut_hist_x_size / resolution[0]), int(ref_hist_x_size / resolution[0])], dtype=np.int32))
-                y_correlations.append(np.zeros([int(dut_hist_y_size / resolution[1]), int(ref_hist_y_size / resolution[1])], dtype=np.int32))
+                x_correlations.append(np.zeros([dut_hist_x_bins, ref_hist_x_bins], dtype=np.int32))
+                y_correlations.append(np.zeros([dut_hist_y_bins, ref_hist_y_bins], dtype=np.int32))
                 # Store the loop indices for speed up
                 start_indices.append(None)
 
-- 
2.43.0


From 77a7995cabb92efe77dd449937593bcc46d12ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 26/62] fix: checking cluster files or positions outside of the
 limits failed with unrelated errors

---
 beam_telescope_analysis/hit_analysis.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 3179e35..9ce528f 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -364,17 +364,19 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
                 if use_positions is False:
-                    if np.any(data_chunk['column'] < 1) or np.any(data_chunk['row'] < 1):
+                    column, row = (data_chunk['mean_column'], data_chunk['mean_row']) if use_clusters else (data_chunk['column'], data_chunk['row'])
+                    if np.any(column < 1) or np.any(row < 1):
                         raise RuntimeError('The column/row index does not start at 1!')
-                    if np.any(data_chunk['column'] > dut.n_columns) or np.any(data_chunk['row'] > dut.n_rows):
+                    if np.any(column > dut.n_columns) or np.any(row > dut.n_rows):
                         raise RuntimeError('The column/row index exceeds the number of pixels (max. %s/%s)!' % (dut.n_columns, dut.n_rows))
                 if use_positions is True:
                     x_extent = dut.x_extent()
                     y_extent = dut.y_extent()
-                    if np.any(data_chunk['x'] < x_extent[0]) or np.any(data_chunk['x'] > x_extent[1]):
-                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.x_extent[0], dut.x_extent[1]))
-                    if np.any(data_chunk['y'] < y_extent[0]) or np.any(data_chunk['y'] > y_extent[1]):
-                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.y_extent[0], dut.y_extent[1]))
+                    x, y = (data_chunk['mean_x'], data_chunk['mean_y']) if use_clusters else (data_chunk['x'], data_chunk['y'])
+                    if np.any(x < x_extent[0]) or np.any(x > x_extent[1]):
+                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (x_extent[0], x_extent[1]))
+                    if np.any(y < y_extent[0]) or np.any(y > y_extent[1]):
+                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (y_extent[0], y_extent[1]))
 
                 if use_clusters:
                     if use_positions:
-- 
2.43.0


From ac61b064eef97dd5f44ffc632b20ab9c74ab9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 27/62] fix: check_file lost the event number difference to
 event 0 at chunk borders

---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 9ce528f..b2d30d5 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -400,7 +400,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
-                if last_event:
+                if last_event is not None:
                     event_delta = np.concatenate((np.array([event_numbers[0] - last_event]),
                                                   event_delta))
                 last_event = event_numbers[-1]
-- 
2.43.0


From 2d13c19890ef35aa3e9de318db8f0369562300fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 28/62] fix: check_file wrote outside of the histogram for
 positions at the upper limit

---
 beam_telescope_analysis/hit_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index b2d30d5..5a1d540 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -388,8 +388,9 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                         x_pos, y_pos = data_chunk['x'], data_chunk['y']
                     else:
                         x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['column'], row=data_chunk['row'])
-                x_indices = ((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32)
-                y_indices = ((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+                # the upper limit belongs to the last bin
+                x_indices = np.minimum(((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32), hist_x_bins - 1)
+                y_indices = np.minimum(((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32), hist_y_bins - 1)
                 analysis_utils.correlate_hits_on_event_range(
                     event_numbers=data_chunk['event_number'],
                     x_indices=x_indices,
-- 
2.43.0


From 6779f74083cab1955896ed219768d1110a764d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:54 +0000
Subject: [PATCH 29/62] fix: check_file lost correlations of events at chunk
 borders

---
 beam_telescope_analysis/hit_analysis.py         | 17 +++++++++++++----
 beam_telescope_analysis/tools/analysis_utils.py |  6 ++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 5a1d540..27b0876 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -338,6 +338,8 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             # x_correlation = np.zeros(shape_column, dtype=np.int32)
             # y_correlation = np.zeros(shape_row, dtype=np.int32)
             last_event = None
+            # event numbers and indices of the last events, to be correlated with events of the next chunk
+            last_events = (np.empty(0, dtype=node.dtype['event_number']), np.empty(0, dtype=np.uint32), np.empty(0, dtype=np.uint32))
             out_dE = out_file_h5.create_earray(
                 where=out_file_h5.root,
                 name='EventDelta',
@@ -391,13 +393,20 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 # the upper limit belongs to the last bin
                 x_indices = np.minimum(((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32), hist_x_bins - 1)
                 y_indices = np.minimum(((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32), hist_y_bins - 1)
+                # add hits of predecessing events from the last chunk
+                corr_event_numbers = np.concatenate((last_events[0], data_chunk['event_number']))
+                corr_x_indices = np.concatenate((last_events[1], x_indices))
+                corr_y_indices = np.concatenate((last_events[2], y_indices))
                 analysis_utils.correlate_hits_on_event_range(
-                    event_numbers=data_chunk['event_number'],
-                    x_indices=x_indices,
-                    y_indices=y_indices,
+                    event_numbers=corr_event_numbers,
+                    x_indices=corr_x_indices,
+                    y_indices=corr_y_indices,
                     x_corr_hist=x_correlation,
                     y_corr_hist=y_correlation,
-                    event_range=event_range)
+                    event_range=event_range,
+                    start_index=last_events[0].shape[0])
+                last_events_selection = corr_event_numbers + event_range > corr_event_numbers[-1]
+                last_events = (corr_event_numbers[last_events_selection], corr_x_indices[last_events_selection], corr_y_indices[last_events_selection])
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 7970d53..b18e246 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -144,7 +144,7 @@ def correlate_position_on_event_number(ref_event_numbers, dut_event_numbers, ref
 
 
 @njit(locals={'curr_event_number': numba.int64, 'last_event_number': numba.int64, 'curr_index': numba.int64, 'corr_index': numba.int64})
-def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range):
+def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range, start_index=0):
     """Correlating the hit indices of different events in a certain range.
     For unambiguous event building no correlation should be seen.
 
@@ -164,10 +164,12 @@ def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hi
     event_range : uint
         The number of events to use for correlation,
         e.g., event_range = 1 correlates to predecessing event hits with the current event hits.
+    start_index : uint
+        Index of the first hit of the current events. Hits before this index are only used as predecessing hits.
     """
     last_event_number = -1
     # Loop over hits, outer loop
-    for curr_index in range(event_numbers.shape[0]):
+    for curr_index in range(start_index, event_numbers.shape[0]):
         curr_event_number = event_numbers[curr_index]
         # calculate new start index for inner loop if new event occurs
         if curr_event_number != last_event_number:
-- 
2.43.0


From a24da220158c7bddfc380aa518121a7fc67f21b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:58 +0000
Subject: [PATCH 30/62] fix: check_file did not notice decreasing event numbers
 at chunk borders

---
 beam_telescope_analysis/hit_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 27b0876..f362580 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -362,7 +362,8 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     fletcher32=False))
 
             last_event_number = 0
-            for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
+            read_index = 0
+            for data_chunk, read_index in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
                 if use_positions is False:
@@ -419,6 +420,10 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 out_E.append(event_numbers)
                 last_event_number = event_numbers[-1]
 
+            # Reading stops at event numbers that cannot be aligned
+            if read_index != node.nrows:
+                raise RuntimeError('The event number does not always increase.')
+
             out_col = out_file_h5.create_carray(
                 where=out_file_h5.root,
                 name='CorrelationColumns',
-- 
2.43.0


From 2c44200523d8494c5c16657615cbc7b609fd105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:48 +0000
Subject: [PATCH 31/62] fix: find_tracks mixed up hits with more than 10 DUTs

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..da6fffe 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -287,7 +287,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('dut_%d' % dut_index):  # do not confuse DUT1 with DUT10
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From 4f2c4117faa9b20ea9ce1f96c6762e39942024a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:01 +0000
Subject: [PATCH 32/62] fix: find_tracks failed if extrapolation is disabled by
 an empty list

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index da6fffe..e9fb4fd 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import int64, njit
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    typed_select_extrapolation_duts = List.empty_list(int64)  # list can be empty
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From a976690060c5a787d97a4ac998324de64623ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 33/62] fix: fit_tracks(keep_data=True) failed with NameError

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index e9fb4fd..d5c8f25 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1398,9 +1398,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From 755a956c371abc414c2e61bc1923276f998f0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 34/62] fix: fit_tracks(keep_data=True) dropped the candidates
 of chunks without tracks

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index d5c8f25..17f81f5 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -887,7 +887,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
                     unique_events = np.unique(track_candidates_chunk["event_number"][select_tracks_for_storage])
                     n_events_chunk = unique_events.shape[0]
-                    if n_events_chunk == 0:
+                    if n_events_chunk == 0 and not keep_data:
                         continue
 
                     if max_events:
-- 
2.43.0


From 71c4c7dea41442a21aaa0a0ed41714b373745ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 35/62] fix: Kalman filter mixed up planes if the devices are
 not numbered in beam direction

---
 beam_telescope_analysis/tools/kalman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..7ea9ba9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,7 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        track_seed = reference_states[:, z_sorted_dut_indices[0], :] + filtered_states_b[:, z_sorted_dut_indices[0], :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +842,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +851,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From c0c920796d1a7f5df7cf9ec4bc6dcf0f22259b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 36/62] fix: calculate_residuals failed if a chunk has no
 tracks with hits within the limits

---
 beam_telescope_analysis/result_analysis.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..596b07f 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -83,6 +83,8 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                     # Select data with hits and tracks
                     selection = np.logical_and(~np.isnan(tracks_chunk['x_dut_%d' % actual_dut_index]), ~np.isnan(tracks_chunk['track_chi2']))
                     tracks_chunk = tracks_chunk[selection]  # Take only tracks where actual dut has a hit, otherwise residual wrong
+                    if tracks_chunk.shape[0] == 0:
+                        continue
 
                     hit_x_local, hit_y_local = tracks_chunk['x_dut_%d' % actual_dut_index], tracks_chunk['y_dut_%d' % actual_dut_index]
                     hit_local = np.column_stack([hit_x_local, hit_y_local])
@@ -269,9 +271,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist_tmp = np.nan_to_num(stat_local_x_residuals_x_pos_hist_tmp)
-                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_x_pos_hist, stat_local_x_residuals_x_pos_hist_tmp]), axis=0, weights=np.stack([count_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local Y residual against Y position
@@ -279,9 +281,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist_tmp = np.nan_to_num(stat_local_y_residuals_y_pos_hist_tmp)
-                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_y_pos_hist, stat_local_y_residuals_y_pos_hist_tmp]), axis=0, weights=np.stack([count_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist_tmp]), returned=True)
 
                         # local Y residual against X position
@@ -289,9 +291,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_tmp = np.nan_to_num(stat_local_y_residuals_x_pos_tmp)
-                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges, range=(x_pos_hist_edges[0], x_pos_hist_edges[-1]))
                         stat_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_x_pos_hist, stat_local_y_residuals_x_pos_tmp]), axis=0, weights=np.stack([count_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local X residual against Y position
@@ -299,9 +301,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_tmp = np.nan_to_num(stat_local_x_residuals_y_pos_tmp)
-                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges, range=(y_pos_hist_edges[0], y_pos_hist_edges[-1]))
                         stat_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_y_pos_hist, stat_local_x_residuals_y_pos_tmp]), axis=0, weights=np.stack([count_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist_tmp]), returned=True)
 
                         # 2D residuals
-- 
2.43.0


From 91c35dd374bd9fc4934cea902c72353e6f61e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 37/62] fix: calculate_efficiency failed with recent NumPy
 versions (ragged list of Voronoi regions)

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index b18e246..b483049 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1145,7 +1145,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, [vor.regions[i] for i in new_regions_indices], vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0


From 4fb09f78e55633e736f8faf2871fc8b4d2407584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 38/62] fix: calculate_efficiency failed if the first chunk has
 no valid hits

---
 beam_telescope_analysis/result_analysis.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 596b07f..4495e26 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1013,6 +1013,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
                 initialize = True
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1272,12 +1273,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                     # Check if DUT has valid hits
                     if initialize:
-                        initialize = False
                         # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
+                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
                         # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
+                        count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
+                            initialize = False
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
                             # 2D tracks with valid hit
@@ -1339,7 +1340,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # 2D cluster shape vs track angle (local beta)
                             stat_2d_cluster_shape_vs_beta_angle_local_hist, _, _, _ = stats.binned_statistic_2d(x=cluster_shape[select_valid_hit], y=beta_angles_local[select_valid_hit], values=None, statistic='count', bins=[np.arange(2**(4 * 4)), count_1d_beta_angle_hist_edges])
                             # Per chunk
-                            count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
+                            count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist.copy()
                     else:
                         # 2D tracks
                         count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
@@ -1417,7 +1418,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # updated last:
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
-                        count_tracks_2d_hist += count_tracks_2d_hist_tmp
+                    count_tracks_2d_hist += count_tracks_2d_hist_tmp
                     if in_cluster_file_h5:
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
@@ -1477,6 +1478,9 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     pbar.update(tracks_chunk.shape[0])
                 pbar.close()
 
+                if initialize:
+                    raise RuntimeError('No tracks with valid hits found for DUT%d, consider changing cut values!' % actual_dut_index)
+
                 # Calculate efficiency
                 stat_2d_efficiency_hist = np.full_like(count_tracks_2d_hist, fill_value=np.nan, dtype=np.float64)
                 stat_2d_efficiency_hist[count_tracks_2d_hist != 0] = count_tracks_with_hit_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) / count_tracks_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) * 100.0
-- 
2.43.0


From 37eb2d69870c16b8e696b1a8ec8e4564414364fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 39/62] fix: calculate_efficiency failed with cluster files
 (keyword of np.unravel_index was renamed)

---
 beam_telescope_analysis/result_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 4495e26..33a0b6b 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1434,10 +1434,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
                             # expand size of index array so that the length matches the cluster array
                             actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, shape=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, shape=(actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
-- 
2.43.0


From 38968337c993c25d0d918c8b7169b41f5b511a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 40/62] fix: calculate_efficiency failed if all valid hits of a
 chunk belong to tracks beyond the histogram

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 33a0b6b..2d25dfe 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1460,7 +1460,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         continue
 
                     # Global efficiency per chunk
-                    if np.any(select_valid_hit):
+                    if np.any(select_valid_hit) and np.any(count_tracks_with_hit_2d_hist_chunk):
                         # Calculate mean efficiency without any binning per chunk
                         eff_chunk, eff_chunk_err_min, eff_chunk_err_max = analysis_utils.get_mean_efficiency(
                             array_pass=count_tracks_with_hit_2d_hist_chunk,
-- 
2.43.0


From 4b11bdb09303145f5855a005a75028ea06508350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 41/62] fix: calculate_efficiency failed if all tracks of a
 chunk cross disabled pixels

---
 beam_telescope_analysis/result_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 2d25dfe..51f3aef 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1038,6 +1038,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         _, closest_indices = pixel_center_extended_kd_tree.query(np.column_stack((intersection_x_local, intersection_y_local)))
                         enabled_pixels_indices = np.where(disabled_pixel_mask == False)[1] + (np.where(disabled_pixel_mask == False)[0] * disabled_pixel_mask.shape[1])
                         select_enabled_pixel_hit = np.isin(closest_indices, enabled_pixels_indices)
+                        if not np.any(select_enabled_pixel_hit):
+                            continue
                     else:
                         select_enabled_pixel_hit = np.ones(shape=intersection_x_local.shape, dtype=bool)
                     hit_x_local, hit_y_local = hit_x_local[select_enabled_pixel_hit], hit_y_local[select_enabled_pixel_hit]
-- 
2.43.0


From f2955b69ed40e9327f42698a0b0939dd81ab361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 42/62] fix: calculate_efficiency failed if a region has no
 tracks or no valid hits in a chunk

---
 beam_telescope_analysis/result_analysis.py | 53 +++++++++++++---------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 51f3aef..99d57a7 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1156,6 +1156,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_y_local > min(region[1])
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
 
+                            if not np.any(select_valid_tracks_efficiency_region):
+                                efficiency_regions_efficiencies_chunk[region_index] = np.nan
+                                continue
+
                             # Moving average
                             efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
                             efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
@@ -1188,27 +1192,28 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 else:
                                     efficiency_region_count_1d_cluster_size_hist_tmp.resize(efficiency_regions_count_1d_cluster_size_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_cluster_size_hist[region_index] += efficiency_region_count_1d_cluster_size_hist_tmp
-                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
-                                local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
-                            else:
-                                efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
-                                efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
-                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
-                                local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
-                            else:
-                                efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
-                                efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
-                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
-                                local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
-                                efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
-                            else:
-                                efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
-                                efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
+                            if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
+                                if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                                    local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
+                                else:
+                                    efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
+                                    efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
+                                if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
+                                    local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
+                                else:
+                                    efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
+                                    efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
+                                if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
+                                    local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
+                                    efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
+                                else:
+                                    efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
+                                    efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
                             if efficiency_regions_count_1d_cluster_shape_hist[region_index] is None:
                                 efficiency_regions_count_1d_cluster_shape_hist[region_index] = np.histogram(a=cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit], bins=np.arange(2**(4 * 4)))[0]
                             else:
@@ -1599,6 +1604,12 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 if efficiency_regions_dut is not None:
                     for region_index, efficiency in enumerate(efficiency_regions_efficiencies):
                         logging.info('Efficiency for region %d%s= %.2f%%' % (region_index + 1, (" (" + efficiency_regions_names_dut[region_index] + ")") if efficiency_regions_names_dut[region_index] else "", efficiency * 100.0))
+                        if efficiency_regions_count_tracks_pixel_hist[region_index] is None:
+                            raise RuntimeError('No tracks found in region %d of DUT%d.' % (region_index + 1, actual_dut_index))
+                        # region without valid hits
+                        for angle_hist, angle_hist_edges in ((efficiency_regions_count_1d_total_angle_hist, efficiency_regions_count_1d_total_angle_hist_edges), (efficiency_regions_count_1d_alpha_angle_hist, efficiency_regions_count_1d_alpha_angle_hist_edges), (efficiency_regions_count_1d_beta_angle_hist, efficiency_regions_count_1d_beta_angle_hist_edges)):
+                            if angle_hist[region_index] is None:
+                                angle_hist[region_index], angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle)
                         # resize so that all histograms have the same size
                         if count_1d_charge_hist.size > efficiency_regions_count_1d_charge_hist[region_index].size:
                             efficiency_regions_count_1d_charge_hist[region_index].resize(count_1d_charge_hist.size, refcheck=False)
-- 
2.43.0


From 4204e9af4ba93247b56fea130318f9d894c9c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 43/62] fix: in-pixel hit map of efficiency regions contained
 hits beyond the cut distance

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 99d57a7..15a1aa1 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1237,7 +1237,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
                                 count_in_pixel_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel hits
-                                count_in_pixel_hits_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_hit_x_local[select_valid_tracks_efficiency_region], y=in_pixel_hit_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
+                                count_in_pixel_hits_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_hit_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_hit_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel x residuals
                                 stat_in_pixel_x_residuals_2d_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=x_residuals[select_valid_tracks_efficiency_region & select_valid_hit], statistic='mean', bins=hist_in_pixel_2d_edges)
                                 stat_in_pixel_x_residuals_2d_hist_tmp = np.nan_to_num(stat_in_pixel_x_residuals_2d_hist_tmp)
-- 
2.43.0


From a22e3589f195b766cbaf5d08444c65f6ef057327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 44/62] fix: calculate_efficiency with cluster files failed for
 clusters with more than one hit

---
 beam_telescope_analysis/result_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 15a1aa1..1f341d6 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1439,8 +1439,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            # expand size of index array so that the length matches the cluster array
-                            actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
+                            # one index for each cluster hit
+                            actual_bin_center_indices = tracks_with_hits_to_bin_center_index[selected_indices]
                             actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, shape=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-- 
2.43.0


From 024095548d334e74a76fb82a6bc7936cd0060a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 45/62] fix: calculate_efficiency with cluster files failed for
 tracks beyond the histogram

---
 beam_telescope_analysis/result_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 1f341d6..cabf07d 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1429,12 +1429,15 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     if in_cluster_file_h5:
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
+                        # select tracks inside the histogram
+                        select_inside = np.all((binnumber >= 1) & (binnumber <= np.array([[hist_2d_x_n_bins], [hist_2d_y_n_bins]])), axis=0)
+                        binnumber = binnumber[:, select_inside]
                         # get 1D index, and remove 1st overflow bin
                         tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
-                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit][select_inside], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
-- 
2.43.0


From b52217b87a9c51fa1afea55bcccc8478fd9ffd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 46/62] fix: calculate_efficiency with cluster files failed if
 pixels are disabled

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index cabf07d..c34bf13 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1437,7 +1437,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
-                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit][select_inside], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_enabled_pixel_hit][select_valid_hit][select_inside], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
-- 
2.43.0


From febb8fccc537df39b6a042c26031abade3c14656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 47/62] fix: calculate_efficiency with cluster files failed for
 chunks without valid hits

---
 beam_telescope_analysis/result_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index c34bf13..89b5064 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1436,6 +1436,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
+                            if not np.any(select_inside):
+                                continue
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
                             selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_enabled_pixel_hit][select_valid_hit][select_inside], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
@@ -1459,7 +1461,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             hits_select &= actual_row_index >= 0
                             hits_select &= actual_row_index < count_pixel_hits_2d_hist.shape[3]
                             # check for significant number of hits outside of the array
-                            if np.count_nonzero(~hits_select) / hits_select.shape[0] > 1e-3:
+                            if np.count_nonzero(~hits_select) > 1e-3 * hits_select.shape[0]:
                                 logging.warning('Consider increasing shape of count_pixel_hits_2d_hist')
                             ravel_indices = np.ravel_multi_index((actual_bin_center_col_row_pair[hits_select, 0], actual_bin_center_col_row_pair[hits_select, 1], actual_col_index[hits_select], actual_row_index[hits_select]), dims=count_pixel_hits_2d_hist.shape)
                             unique_indices, unique_indices_count = np.unique(ravel_indices, return_counts=True)
-- 
2.43.0


From acc18dc36bcc97f59f79d8846f24bde03836ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 48/62] fix: calculate_purity failed always

---
 beam_telescope_analysis/result_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 89b5064..a92c321 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2247,6 +2247,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     raise RuntimeError('No pure hit for DUT%d, consider changing cut values or check track building!', actual_dut_index)
 
                 plot_utils.purity_plots(
+                    telescope,
                     total_pure_hit_hist,
                     total_hit_hist, purity,
                     purity_sensor,
@@ -2256,7 +2257,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     cut_distance=cut_distance,
                     output_pdf=output_pdf)
 
-                logging.info('Purity =  %1.4f +- %1.4f%%' % np.ma.mean(purity), np.ma.std(purity))
+                logging.info('Purity =  %1.4f +- %1.4f%%' % (np.ma.mean(purity), np.ma.std(purity)))
                 purities.append(np.ma.mean(purity))
                 purities_sensor_mean.append(np.ma.mean(purity_sensor))
 
-- 
2.43.0


From b0cd565a065feeec3d0a7c4dc1dbb7dfe0e71e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 49/62] fix: calculate_purity truncated the purity of each bin
 to an integer

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index a92c321..e4e1c08 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2237,7 +2237,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                         continue
                     total_pure_hit_hist += (np.histogram2d(pure_hits_local[:, 0], pure_hits_local[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
 
-                purity = np.zeros_like(total_hit_hist)
+                purity = np.zeros_like(total_hit_hist, dtype=np.float64)
                 purity[total_hit_hist != 0] = total_pure_hit_hist[total_hit_hist != 0].astype(np.float64) / total_hit_hist[total_hit_hist != 0].astype(np.float64) * 100.0
                 purity = np.ma.array(purity, mask=total_hit_hist < minimum_hit_density)
                 # calculate sensor purity by weighting each pixel purity with total number of hits within the pixel
-- 
2.43.0


From 8c2590531d7ce3c40364364fe10d3a9187cfa8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 50/62] fix: calculate_purity ignored pure hits if all are at
 the sensor center

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index e4e1c08..90dd0a2 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2232,7 +2232,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     # Calculate purity
                     pure_hits_local = hits_local[distance_local < cut_distance]
 
-                    if not np.any(pure_hits_local):
+                    if pure_hits_local.shape[0] == 0:
                         logging.warning('No pure hits in DUT%d, cannot calculate purity', actual_dut_index)
                         continue
                     total_pure_hit_hist += (np.histogram2d(pure_hits_local[:, 0], pure_hits_local[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
-- 
2.43.0


From ea23181866f08015ad3268e2d5c58c956eaf6ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 51/62] fix: in-pixel cluster shape map counted other cluster
 shapes as one of the analyzed ones

---
 beam_telescope_analysis/result_analysis.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 90dd0a2..8d9c226 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1084,7 +1084,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # select cluser shapes with cluster size <=4
                     select_small_cluster_sizes = np.zeros_like(select_valid_hit)
                     for cluster_shape_value in efficiency_regions_analyze_cluster_shapes:
-                        select_small_cluster_sizes |= cluster_shape_value == cluster_shape_value
+                        select_small_cluster_sizes |= cluster_shape == cluster_shape_value
                     if efficiency_regions_dut is not None:
                         # for in-pixel statistics
                         # if neccessary increase size of primitive cell (may be larger than single pixel)
@@ -1263,10 +1263,11 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 stat_in_pixel_cluster_size_2d_hist_tmp = np.nan_to_num(stat_in_pixel_cluster_size_2d_hist_tmp)
                                 stat_in_pixel_cluster_size_2d_hists[region_index], _ = np.ma.average(a=np.stack([stat_in_pixel_cluster_size_2d_hists[region_index], stat_in_pixel_cluster_size_2d_hist_tmp]), axis=0, weights=np.stack([count_in_pixel_tracks_with_hit_2d_hists[region_index], count_in_pixel_tracks_with_hit_2d_hist_tmp]), returned=True)
                                 # 2D in-pixel cluster shape
-                                cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
-                                for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
-                                    cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
-                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
+                                if np.any(select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes):
+                                    cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
+                                    for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
+                                        cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
+                                    count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
                                 # updated last:
                                 # 2D in-pixel tracks with valid hit
                                 count_in_pixel_tracks_with_hit_2d_hists[region_index] += count_in_pixel_tracks_with_hit_2d_hist_tmp
@@ -1392,7 +1393,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 count_1d_frame_hist_tmp.resize(count_1d_frame_hist.size, refcheck=False)
                             count_1d_frame_hist += count_1d_frame_hist_tmp
                             # 2D mean cluster size
-                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit & select_small_cluster_sizes], y=intersection_y_local[select_valid_hit & select_small_cluster_sizes], values=cluster_size[select_valid_hit & select_small_cluster_sizes], statistic='mean', bins=hist_2d_edges)
+                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=cluster_size[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_cluster_size_hist_tmp = np.nan_to_num(stat_2d_cluster_size_hist_tmp)
                             stat_2d_cluster_size_hist, _ = np.ma.average(a=np.stack([stat_2d_cluster_size_hist, stat_2d_cluster_size_hist_tmp]), axis=0, weights=np.stack([count_tracks_with_hit_2d_hist, count_tracks_with_hit_2d_hist_tmp]), returned=True)
                             # 1D total track anlge
-- 
2.43.0


From 5c6c980bf99ce21d61cac3e6014674462514421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 52/62] fix: calculate_efficiency failed to store the results
 of a region without valid hits

---
 beam_telescope_analysis/result_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 8d9c226..91e3343 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1621,6 +1621,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             efficiency_regions_count_1d_charge_hist[region_index].resize(count_1d_charge_hist.size, refcheck=False)
                         if count_1d_frame_hist.size > efficiency_regions_count_1d_frame_hist[region_index].size:
                             efficiency_regions_count_1d_frame_hist[region_index].resize(count_1d_frame_hist.size, refcheck=False)
+                        if efficiency_regions_count_1d_cluster_size_hist[region_index].size == 0:
+                            efficiency_regions_count_1d_cluster_size_hist[region_index].resize(1, refcheck=False)
                         mean_charge = analysis_utils.get_mean_from_histogram(efficiency_regions_count_1d_charge_hist[region_index], range(count_1d_charge_hist.size))
                         if efficiency_regions_names_dut[region_index] is not None:
                             logging.info('Mean charge for region %d (%s) = %.2f' % (region_index + 1, efficiency_regions_names_dut[region_index], mean_charge))
-- 
2.43.0


From 75eff56e79e0a849d5feaa9ff1798946ec6c629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 53/62] fix: calculate_transformation ignored the rotation of
 all but the last chunk

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..5f0ad52 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1969,7 +1969,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0


From 814287d30c73b7697127a5a9bcca9091ca8b999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 54/62] fix: apply_alignment failed for files with recorded
 arguments

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 5f0ad52..81a51b3 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -153,7 +153,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     # Looper over the hits of all DUTs of all hit tables in chunks and apply the alignment
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-            for node in in_file_h5.root:  # Loop over potential hit tables in data file
+            for node in in_file_h5.iter_nodes(in_file_h5.root, classname='Table'):  # Loop over potential hit tables in data file, skip the recorded arguments
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From b58a4a984d450bab96002ebb5b9155828ded5719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 55/62] fix: apply_alignment converted tracks of DUT 10 and
 above also with DUT 1

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 81a51b3..c1999d6 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("_DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("_DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From cfeb895875b8ef225a48555d691dba0e6b4db4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 56/62] fix: align and align_kalman failed for groups of
 different size and without selection of DUTs

---
 beam_telescope_analysis/dut_alignment.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index c1999d6..4afda47 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -642,8 +642,6 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
-
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
         select_duts = list(range(n_duts))
@@ -663,8 +661,9 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
@@ -1009,8 +1008,6 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
-
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
         select_duts = list(range(n_duts))
@@ -1030,8 +1027,9 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
-- 
2.43.0


From af14ec882776780907eaf41f5d5aff1cb2df6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 57/62] fix: align failed without quality distances

---
 beam_telescope_analysis/dut_alignment.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 4afda47..796a597 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1193,15 +1193,6 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         # reqire hits in each DUT that will be aligned
         actual_hit_duts = [list(set(select_hit_duts) | set([dut_index])) for dut_index in actual_align_duts]
         actual_quality_duts = actual_hit_duts
-        fit_quality_distances = np.zeros_like(quality_distances)
-        for index, item in enumerate(quality_distances):
-            if index in align_duts:
-                fit_quality_distances[index, 0] = np.linspace(item[0] * 1.08447**max_iterations, item[0], max_iterations)[iteration_step]
-                fit_quality_distances[index, 1] = np.linspace(item[1] * 1.08447**max_iterations, item[1], max_iterations)[iteration_step]
-            else:
-                fit_quality_distances[index, 0] = item[0]
-                fit_quality_distances[index, 1] = item[1]
-        fit_quality_distances = fit_quality_distances.tolist()
         if iteration_step > 0:
             logging.info('= Alignment step 1 - iteration %d: Finding tracks for %d DUTs =', iteration_step, len(align_duts))
             # remove temporary file
-- 
2.43.0


From d8d713ba22c57d6b17af759fe69b0d1d89458ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 58/62] fix: simulation created too many events if the chunk
 size is not a divisor

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 978f60a..78eb3ee 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -482,7 +482,7 @@ class SimulateData(object):
         # Fill output files in chunks
         for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
             actual_events, actual_digitized_hits = self._create_data(
-                start_event_number=chunk_index * chunk_size, n_events=chunk_size)
+                start_event_number=chunk_index * chunk_size, n_events=min(chunk_size, n_events - chunk_index * chunk_size))
             for dut_index in range(self._n_duts):
                 actual_dut_events, actual_dut_hits = actual_events[
                     dut_index], actual_digitized_hits[dut_index]
-- 
2.43.0


From b78148a96abb7f39a6a18b9441d3490a3793768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 59/62] fix: simulation used the beam size in x also for y

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 78eb3ee..80c5e62 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -527,7 +527,7 @@ class SimulateData(object):
             track_positions_x = np.repeat(self.beam_position[0], repeats=n_tracks)  # Constant x = mean_x
 
         if self.beam_position_sigma[1] != 0:
-            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[0], n_tracks)
+            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[1], n_tracks)
 
         else:
             track_positions_y = np.repeat(self.beam_position[1], repeats=n_tracks)  # Constant y = mean_y
-- 
2.43.0


From bcef23a16b356f843d38302e4276e49ff64f8679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 60/62] fix: simulated charge sharing never created hits in the
 last column and row

---
 beam_telescope_analysis/tools/simulate_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 80c5e62..1cff161 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -144,7 +144,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
     # FIXME: Charges are distributed along a track and not in the center z
     position_z = thickness / 2
     # Calc charge in pixels in + column direction
-    for actual_column in range(int(column), max_column):
+    for actual_column in range(int(column), max_column + 1):
         # Omit row loop if charge fraction is already too low for seed row (=0)
         if (total_fraction >= 1. - min_fraction or
             _calc_charge_fraction(
@@ -160,7 +160,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
@@ -233,7 +233,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
-- 
2.43.0


From f9f2ff34ba311852bcc1924b6b47293360897b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 61/62] fix: simulation with an increased number of devices
 failed

---
 beam_telescope_analysis/tools/simulate_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 1cff161..3367e27 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -378,6 +378,7 @@ class SimulateData(object):
         if value > self._n_duts:
             logging.warning(
                 'Number of DUTs increased, reset to standard settings!')
+            self._n_duts = value
             self.set_std_settings()
         self._n_duts = value
 
-- 
2.43.0


From ab98cc9128ea899e3febf44e8255563e934467c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:34 +0000
Subject: [PATCH 62/62] fix: simulation ignored the correction factor of the
 charge cloud size

---
 beam_telescope_analysis/tools/simulate_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 3367e27..f36b450 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -294,7 +294,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
 
 
 @njit()
-def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias):
+def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias, digitization_sigma_cc):
     ''' Add additional hits to seed hits due to charge sharing.
     '''
 
@@ -317,7 +317,7 @@ def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thicknes
             pixel_size_y=pixel_size_y,
             temperature=temperature,
             bias=bias,
-            digitization_sigma_cc=1.,
+            digitization_sigma_cc=digitization_sigma_cc,
             result_hits=result_hits,
             index=index)
 
@@ -744,7 +744,8 @@ class SimulateData(object):
                         pixel_size_x=self.dut_pixel_size[dut_index][0],
                         pixel_size_y=self.dut_pixel_size[dut_index][1],
                         temperature=self.temperature,
-                        bias=self.dut_bias[dut_index])
+                        bias=self.dut_bias[dut_index],
+                        digitization_sigma_cc=self.digitization_sigma_cc)
                     actual_event_number = np.repeat(actual_event_number, n_hits_per_event)
 
                 # Delete hits outside of the DUT
-- 
2.43.0

