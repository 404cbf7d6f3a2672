From ddc5d579c11cd031270ae73ef39510b8ac14ddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:23 +0000
Subject: [PATCH 01/32] fix: print quaternions with str(), np.str no longer
 exists

Formatting a quaternion or dual quaternion raised AttributeError on
current numpy, so every calibration aborted as soon as it printed its
first solution.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From ad55c81db73a1603ac0b438405917c999f2f388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:23 +0000
Subject: [PATCH 02/32] fix: draw RANSAC samples from a sequence, not from a
 set

random.sample() rejects sets since Python 3.11, so every non-exhaustive
algorithm raised TypeError at its first draw.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..0f890e5 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -709,7 +709,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From b05d9df3fab88abce2047d1d7548a76b65e42715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:23 +0000
Subject: [PATCH 03/32] fix: pass an integer sample count to np.linspace when
 resampling

numpy rejects a float sample count, so the time offset could not be
computed for any input.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..6157000 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt + 1))
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From d00f58ba93bfe5a65f8c1954f9fbbb1ac1b52364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:23 +0000
Subject: [PATCH 04/32] fix: import errno so that create_path survives a
 concurrent mkdir

The guard against two processes creating the same directory referred to
a name that was never imported and raised NameError instead.
---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..4e86186 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
-- 
2.43.0


From 4e728d2f4110ae14f6124e42d4c6673bced8af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:20:23 +0000
Subject: [PATCH 05/32] fix: read the export configuration with yaml.safe_load

yaml.load() requires a Loader argument since PyYAML 6, so both export
drivers failed before reading their configuration.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From 927e766a8d12bf336fa8748d67aa9c66181513ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:44 +0000
Subject: [PATCH 06/32] fix: interpolate resampled orientations at epoch time
 stamps

np.isclose() adds a relative tolerance of 1e-5 by default. For time
stamps counted from the Unix epoch that is several hours, so every
sample was taken to coincide with the next pose and no orientation was
ever interpolated.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 6157000..c6a6b64 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,7 +71,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-- 
2.43.0


From 14a8641110d652266dfb2c3b12d886d712efb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:21:44 +0000
Subject: [PATCH 07/32] fix: do not round small rotations to zero in angle_axis

The default relative tolerance of np.isclose() treated every rotation
below about 0.5 degrees as no rotation. The angular velocity of a high
rate or slow recording was therefore zero everywhere and the estimated
time offset was arbitrary.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..896e54c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -138,7 +138,7 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    if np.isclose(self.w, 1., rtol=0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
 
     angle = 2. * np.arccos(self.w)
-- 
2.43.0


From 63175b71a157aebb8d708e7eae43dbcfaee2cd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 08/32] fix: bound the number of samples RANSAC draws

---
 .../dual_quaternion_hand_eye_calibration.py                 | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 0f890e5..755b9c7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -683,7 +683,8 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   best_singular_value_status = True
 
   all_sample_combinations = []
-  max_number_samples = np.inf
+  # Give up if hardly any sample is accepted, otherwise RANSAC never terminates.
+  max_number_samples = 1000 * config.ransac_max_number_iterations
   if not config.enable_exhaustive_search:
     print("Running RANSAC...")
     print("Inlier classification method: {}".format(
@@ -699,7 +700,8 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   full_iterations = 0
   prerejected_samples = 0
   while ((not config.enable_exhaustive_search and
-          full_iterations < config.ransac_max_number_iterations) or
+          full_iterations < config.ransac_max_number_iterations and
+          sample_number < max_number_samples) or
          (config.enable_exhaustive_search and
           sample_number < max_number_samples)):
 
-- 
2.43.0


From cf63961de6c0f269b381afb73768915ced247c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 09/32] fix: use the best inlier set in the exhaustive baseline
 search

---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 755b9c7..af3ad4a 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -558,7 +558,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From 43e279db3788d32896bffe56e3c2c8bdf133182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 10/32] fix: do not index the baseline inliers with a pose
 index

The inlier lists are shorter than the pose list, so the unused re-alignment
could raise IndexError although enough inliers were found.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index af3ad4a..28ea46f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -561,9 +561,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From c3231115c1092352721b5a2a194df5fba9a3fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 11/32] fix: also convert the returned poses when reading JPL
 quaternions

Only the list of quaternions was converted, the returned pose array kept the
JPL convention although callers write it out as Hamilton quaternions.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..3e64081 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.0
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From 415e51dc8a9a54b6e2614d92fd4474128cafe8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 12/32] fix: write pose and calibration files atomically

A crash or a full disk left a truncated file behind that later steps accepted
as a complete result.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py  | 6 +++++-
 .../python/hand_eye_calibration/extrinsic_calibration.py    | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 3e64081..7a8bdaf 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -1,6 +1,7 @@
 from hand_eye_calibration.quaternion import Quaternion
 import numpy as np
 import csv
+import os
 
 
 def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False):
@@ -31,7 +32,10 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
 
 
 def write_double_numpy_array_to_csv_file(array, csv_file):
-  np.savetxt(csv_file, array, delimiter=", ", fmt="%.18f")
+  # Replace the file at once, an interrupted write must not leave a partial file.
+  tmp_file = csv_file + ".tmp"
+  np.savetxt(tmp_file, array, delimiter=", ", fmt="%.18f")
+  os.rename(tmp_file, csv_file)
 
 def write_time_stamped_poses_to_csv_file(time_stamped_poses, csv_file):
   """
diff --git a/hand_eye_calibration/python/hand_eye_calibration/extrinsic_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/extrinsic_calibration.py
index 0a80398..2deb39b 100755
--- a/hand_eye_calibration/python/hand_eye_calibration/extrinsic_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/extrinsic_calibration.py
@@ -17,8 +17,11 @@ class ExtrinsicCalibration:
       'rotation' : { name : float(pose[i + 3]) for i, name in enumerate('ijkw') },
       'translation' : { name : float(pose[i]) for i, name in enumerate('xyz') }
     }
-    with open(out_file, 'w') as f:
+    # Replace the file at once, an interrupted write must not leave a partial file.
+    tmp_file = out_file + ".tmp"
+    with open(tmp_file, 'w') as f:
       json.dump(calib, f, indent = 3, sort_keys=True)
+    os.rename(tmp_file, out_file)
 
   @classmethod
   def fromJson(cls, in_file, switchConvention = False):
-- 
2.43.0


From b19ab21206c67190c10df8042cdc6780768b9935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 13/32] fix: do not divide by zero when tf time stamps repeat

---
 hand_eye_calibration/bin/tf_to_csv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..70b0589 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -77,7 +77,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_counter += 1
 
           # Check if there was a drop in the tf frequency.
-          if tf_counter > 3:
+          if tf_counter > 3 and end_time_tf_message != start_time_tf_message:
             tf_frequency_estimated = tf_counter / (
                 end_time_tf_message - start_time_tf_message).to_sec()
 
@@ -110,7 +110,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_previous_timestamp = single_tf.header.stamp
 
   # Output final estimated frequency.
-  if tf_counter > 3:
+  if tf_counter > 3 and end_time_tf_message != start_time_tf_message:
     tf_frequency_estimated = tf_counter / (
         end_time_tf_message - start_time_tf_message).to_sec()
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
-- 
2.43.0


From dce83a02e7623aa9be1b3cc78a8bf0442e5c95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 14/32] fix: close the exported csv file so that write errors
 are reported

---
 hand_eye_calibration/bin/tf_to_csv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 70b0589..b6f75c6 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -108,6 +108,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
                   tf_frequency_estimated))
 
           tf_previous_timestamp = single_tf.header.stamp
+  csv_file.close()
 
   # Output final estimated frequency.
   if tf_counter > 3 and end_time_tf_message != start_time_tf_message:
-- 
2.43.0


From f3e1ef079ca317bc1c420eeb7fdd46b4f908a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:18 +0000
Subject: [PATCH 15/32] fix: report failed exports through the exit status

---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 9 +++++++--
 hand_eye_calibration/bin/target_extractor_interface.py | 5 +++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index a05b865..67e254c 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -4,6 +4,7 @@ from subprocess import call
 import argparse
 import copy
 import rospy
+import sys
 import yaml
 
 
@@ -25,6 +26,7 @@ if __name__ == '__main__':
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
+  num_failed_exports = 0
 
   for bag in bags:
     bag_name = bag['name']
@@ -60,7 +62,7 @@ if __name__ == '__main__':
       tf_call.append('--csv_output_file')
       tf_call.append(bag_name_without_suffix + '_' +
                      tf_target_frame + '_' + tf_source_frame + '.csv')
-      call(tf_call)
+      num_failed_exports += (call(tf_call) != 0)
     cameras = bag['cameras']
     equal_length_warning = ("Camera topics and intrinsic calibrations should "
                             "have equal length.")
@@ -91,4 +93,7 @@ if __name__ == '__main__':
       te_call.append('--output_file')
       te_call.append(bag_name_without_suffix + '_' +
                      'W_' + camera_topic.replace("/", "_")[1:] + '.csv')
-      call(te_call)
+      num_failed_exports += (call(te_call) != 0)
+
+  if num_failed_exports > 0:
+    sys.exit("{} exports failed.".format(num_failed_exports))
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index 501b613..5ad70f2 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 from subprocess import call
 import argparse
+import sys
 import yaml
 
 
@@ -56,7 +57,7 @@ def call_target_extractor(target_extractor_config):
       str(target_extractor_config.april_tag_number_pixel_boarder))
   te_arguments.append("--april_tag_gap_size_m")
   te_arguments.append(str(target_extractor_config.april_tag_gap_size_m))
-  call(te_arguments)
+  return call(te_arguments)
 
 
 if __name__ == "__main__":
@@ -98,4 +99,4 @@ if __name__ == "__main__":
   te_config.camera_pose_T_C_G_output_file = "sequenced_" + args.output_file
   te_config.camera_pose_T_C_G_output_file_timestamped = args.output_file
 
-  call_target_extractor(te_config)
+  sys.exit(call_target_extractor(te_config))
-- 
2.43.0


From 36ecb5cf25da63818ed56c3bfbeb4c0fbce7c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 16/32] fix: stop the end-to-end calibration at the first
 failing step

---
 .../scripts/compute_complete_handeye_calibration.sh              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 20d6dd2..cf8b94d 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -e
 
 DATASET_DIR_A=`basename $1`
 DATASET_PATH_A=`dirname $1`
-- 
2.43.0


From f5878439b9256c9b45c61c307f37894029567d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 17/32] fix: do not enable the plots in the end-to-end
 calibration

The flag is parsed with bool(), which is True for every non-empty string.
---
 .../scripts/compute_complete_handeye_calibration.sh            | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index cf8b94d..e39ce71 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -22,8 +22,7 @@ rosrun hand_eye_calibration compute_hand_eye_calibration.py \
 --aligned_poses_B_H_csv_file $ALIGNED_POSES_A  \
 --aligned_poses_W_E_csv_file $ALIGNED_POSES_B  \
 --time_offset_input_csv_file time_offset.csv \
---calibration_output_json_file calibration.json \
---visualize=0
+--calibration_output_json_file calibration.json
 
 rosrun hand_eye_calibration_batch_estimation batch_estimator \
 --v 1 \
-- 
2.43.0


From 5a20037249b51b79c0d881a46840ebb70f472005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 18/32] fix: quote the paths in the end-to-end calibration

---
 .../compute_complete_handeye_calibration.sh   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index e39ce71..06712bf 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,32 +1,32 @@
 #!/bin/bash
 set -e
 
-DATASET_DIR_A=`basename $1`
-DATASET_PATH_A=`dirname $1`
+DATASET_DIR_A=`basename "$1"`
+DATASET_PATH_A=`dirname "$1"`
 
-DATASET_DIR_B=`basename $2`
-DATASET_PATH_B=`dirname $2`
+DATASET_DIR_B=`basename "$2"`
+DATASET_PATH_B=`dirname "$2"`
 
 ALIGNED_POSES_A="${DATASET_PATH_A}/aligned_${DATASET_DIR_A}"
 ALIGNED_POSES_B="${DATASET_PATH_B}/aligned_${DATASET_DIR_B}"
 
 
 rosrun hand_eye_calibration compute_aligned_poses.py \
---poses_B_H_csv_file $1  \
---poses_W_E_csv_file $2 \
---aligned_poses_B_H_csv_file $ALIGNED_POSES_A \
---aligned_poses_W_E_csv_file $ALIGNED_POSES_B \
+--poses_B_H_csv_file "$1"  \
+--poses_W_E_csv_file "$2" \
+--aligned_poses_B_H_csv_file "$ALIGNED_POSES_A" \
+--aligned_poses_W_E_csv_file "$ALIGNED_POSES_B" \
 --time_offset_output_csv_file time_offset.csv
 
 rosrun hand_eye_calibration compute_hand_eye_calibration.py \
---aligned_poses_B_H_csv_file $ALIGNED_POSES_A  \
---aligned_poses_W_E_csv_file $ALIGNED_POSES_B  \
+--aligned_poses_B_H_csv_file "$ALIGNED_POSES_A"  \
+--aligned_poses_W_E_csv_file "$ALIGNED_POSES_B"  \
 --time_offset_input_csv_file time_offset.csv \
 --calibration_output_json_file calibration.json
 
 rosrun hand_eye_calibration_batch_estimation batch_estimator \
 --v 1 \
---pose1_csv $1 \
---pose2_csv $2 \
+--pose1_csv "$1" \
+--pose2_csv "$2" \
 --init_guess_file calibration.json \
 --output_file calibration_optimized.json
-- 
2.43.0


From 2ff9f51e6475846ad869aa1163274e03d48f4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 19/32] fix: record whether prefiltering was enabled

---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From 1dd2439962a20845367ccbc613083d305f3684ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 20/32] fix: close the experiment result files

The header was lost if the experiment was interrupted, and write errors were
not reported.
---
 .../bin/compute_set_of_hand_eye_calibrations.py             | 6 +++++-
 .../bin/optimization_experiments.py                         | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..56512e3 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -82,10 +82,11 @@ if __name__ == "__main__":
   result_file_path = args.result_directory + "/results.csv"
   create_path(result_file_path)
 
-  if not os.path.exists(result_file_path):
+  if not os.path.exists(result_file_path) or os.path.getsize(result_file_path) == 0:
     output_file = open(result_file_path, 'w')
     example_result_entry = ResultEntry()
     output_file.write(example_result_entry.get_header())
+    output_file.close()
 
   # Prepare folders.
   if not os.path.exists('dq_H_E'):
@@ -351,5 +352,8 @@ if __name__ == "__main__":
               np.array_str(results_dq_H_E[i].dq, max_line_width=1000000)))
           output_file_pose_H_E.write("{}\n".format(
               np.array_str(results_poses_H_E[i], max_line_width=1000000)))
+        output_file_dq_H_E.close()
+        output_file_pose_H_E.close()
 
         output_file.write(result_entry.write_pose_pair_to_csv_line(i))
+      output_file.close()
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..6075cd6 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -437,10 +437,11 @@ if __name__ == "__main__":
   result_file_path = args.result_directory + "/results_optimization.csv"
   create_path(result_file_path)
 
-  if not os.path.exists(result_file_path):
+  if not os.path.exists(result_file_path) or os.path.getsize(result_file_path) == 0:
     output_file = open(result_file_path, 'w')
     example_result_entry = ResultEntry()
     output_file.write(example_result_entry.get_header())
+    output_file.close()
 
   # Get basic configuration.
   (algorithm_name, filtering_config, hand_eye_config,
@@ -550,5 +551,6 @@ if __name__ == "__main__":
     for pair_idx in range(0, num_pose_pairs):
       output_file.write(
           output_data_entry[0].write_pose_pair_to_csv_line(pair_idx))
+  output_file.close()
 
   print("\n\nFINISHED WRITING RESULTS!\n\n")
-- 
2.43.0


From 8e35c1909d8d3444f6f60ecf456f6f0735a31a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 21/32] fix: allow restarting an interrupted set of
 calibrations

An interruption between creating the two files made every later run fail.
---
 .../bin/compute_set_of_hand_eye_calibrations.py      | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 56512e3..09ed472 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -335,17 +335,11 @@ if __name__ == "__main__":
                                                                             algorithm_name, i)
         create_path(poses_H_E_file)
 
-        if os.path.exists(dq_H_E_file):
-          append_write = 'a'  # append if already exists
-          assert os.path.exists(poses_H_E_file)
-        else:
-          append_write = 'w'  # make a new file if not
-          assert not os.path.exists(poses_H_E_file)
-
+        # Append if the files already exist.
         output_file_dq_H_E = open(
-            dq_H_E_file, append_write)
+            dq_H_E_file, 'a')
         output_file_pose_H_E = open(
-            poses_H_E_file, append_write)
+            poses_H_E_file, 'a')
 
         if results_dq_H_E[i] is not None:
           output_file_dq_H_E.write("{}\n".format(
-- 
2.43.0


From 1d52358e827a13d349cac827a4e37619a4a8f49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 22/32] fix: continue the set of calibrations after a failed
 calibration

---
 .../bin/compute_set_of_hand_eye_calibrations.py    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 09ed472..44b9ba3 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -206,9 +206,10 @@ if __name__ == "__main__":
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
           # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
+          if success:
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
 
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
@@ -217,7 +218,7 @@ if __name__ == "__main__":
           # Init optimization result
           time_offset_optimized = None
           dq_H_E_optimized = None
-          optimization_success = True
+          optimization_success = success
           rmse_optimized = (-1, -1)
           num_inliers_optimized = 0
 
@@ -227,6 +228,8 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            if not success:
+              raise Exception("There is no initial guess.")
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -317,7 +320,8 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if (sum(result_entry.optimization_success) == num_pose_pairs and
+              all(dq_H_E is not None for dq_H_E in results_dq_H_E)):
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From 7d5985318f82c054d33696653eb77e916b767d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:33:19 +0000
Subject: [PATCH 23/32] fix: seed the random generator of each experiment
 worker

The forked workers inherited the same state and drew identical perturbations.
---
 .../bin/optimization_experiments.py                            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 6075cd6..2fbfe0c 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -535,7 +535,8 @@ if __name__ == "__main__":
   assert experiment_progress_idx == number_of_experiment_exec
   assert len(input_data) == number_of_experiment_exec
 
-  thread_pool = Pool(min(8, number_of_experiment_exec))
+  # The workers must not share the random state of the parent process.
+  thread_pool = Pool(min(8, number_of_experiment_exec), np.random.seed)
   func_wrapped = partial(Forwarder, func=run_optimization_experiment)
   output_data = thread_pool.map(func_wrapped, input_data)
   assert len(output_data) == number_of_experiment_exec
-- 
2.43.0


From d0c5d8a1d8c616c775fcbfb66624ae24de44a527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:49 +0000
Subject: [PATCH 24/32] fix: write the result lines of an iteration at once

---
 .../bin/compute_set_of_hand_eye_calibrations.py           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 44b9ba3..a1c924c 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -330,7 +330,7 @@ if __name__ == "__main__":
         print("Error: No loop error computed because not all pose pairs were successfully calibrated!")
 
       # Write to result files.
-      output_file = open(result_file_path, 'a')
+      result_lines = ""
       for i in range(0, num_pose_pairs):
         dq_H_E_file = "{}/dq_H_E/{}_pose_pair_{}_dq_H_E.txt".format(args.result_directory,
                                                                     algorithm_name, i)
@@ -353,5 +353,9 @@ if __name__ == "__main__":
         output_file_dq_H_E.close()
         output_file_pose_H_E.close()
 
-        output_file.write(result_entry.write_pose_pair_to_csv_line(i))
+        result_lines += result_entry.write_pose_pair_to_csv_line(i)
+
+      # Write all lines at once, an interruption must not leave a partial line.
+      output_file = open(result_file_path, 'a')
+      output_file.write(result_lines)
       output_file.close()
-- 
2.43.0


From 74858ca81651f77be3c99837802917beb78a6148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:38 +0000
Subject: [PATCH 25/32] fix: keep dots of recording names in the names of
 exported files

---
 hand_eye_calibration/bin/bag_to_csv_with_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 67e254c..ca25e6a 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -3,6 +3,7 @@ from subprocess import call
 
 import argparse
 import copy
+import os
 import rospy
 import sys
 import yaml
@@ -30,7 +31,7 @@ if __name__ == '__main__':
 
   for bag in bags:
     bag_name = bag['name']
-    bag_name_without_suffix = bag_name.split('.')[0]
+    bag_name_without_suffix = os.path.splitext(bag_name)[0]
     bag_path = bag['bag_path']
     intrinsics_path = bag['intrinsics_path']
     target_config_path = bag['target_config_path']
-- 
2.43.0


From 282653e3cf9c34396e06e8a745c2704d193ba6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:58 +0000
Subject: [PATCH 26/32] fix: keep the first letter of camera topics without a
 leading slash

---
 hand_eye_calibration/bin/bag_to_csv_with_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index ca25e6a..5907881 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -93,7 +93,7 @@ if __name__ == '__main__':
       te_call.append(target_config_path + target_config)
       te_call.append('--output_file')
       te_call.append(bag_name_without_suffix + '_' +
-                     'W_' + camera_topic.replace("/", "_")[1:] + '.csv')
+                     'W_' + camera_topic.lstrip("/").replace("/", "_") + '.csv')
       num_failed_exports += (call(te_call) != 0)
 
   if num_failed_exports > 0:
-- 
2.43.0


From 046a629712f601935e348945a6fcf09e09c76195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:37 +0000
Subject: [PATCH 27/32] fix: record a calibration that gives up as failed

---
 .../compute_set_of_hand_eye_calibrations.py   | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index a1c924c..29a8333 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -183,16 +183,24 @@ if __name__ == "__main__":
 
         print("Computing hand-eye calibration...")
 
-        if hand_eye_config.use_baseline_approach:
-          (success, dq_H_E_initial_guess, rmse,
-           num_inliers, num_poses_kept,
-           runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_BASELINE(
-              dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
-        else:
+        try:
+          if hand_eye_config.use_baseline_approach:
+            (success, dq_H_E_initial_guess, rmse,
+             num_inliers, num_poses_kept,
+             runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_BASELINE(
+                dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+          else:
+            (success, dq_H_E_initial_guess, rmse,
+             num_inliers, num_poses_kept,
+             runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_RANSAC(
+                dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+        except AssertionError as ex:
+          # The algorithms give up this way, e.g. if there are not enough inliers.
+          print("Hand-eye calibration failed: {}".format(ex))
           (success, dq_H_E_initial_guess, rmse,
            num_inliers, num_poses_kept,
-           runtime, singular_values, bad_singular_values) = compute_hand_eye_calibration_RANSAC(
-              dual_quat_B_H_vec, dual_quat_W_E_vec, hand_eye_config)
+           runtime, singular_values, bad_singular_values) = (
+              False, None, (np.inf, np.inf), 0, 0, 0., None, True)
 
         # Fill in result entries.
         result_entry.success.append(success)
-- 
2.43.0


From cc2cec53f45a6bd8b3f46736c4345583d1eec192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:37 +0000
Subject: [PATCH 28/32] fix: draw the time alignment without the removed hold
 function

plt.hold() is gone since matplotlib 3.0, so the alignment tool ended with an
error instead of a result when visualisation was switched on.  Curves have
always been added to the current axes by default.
---
 .../hand_eye_calibration/time_alignment_plotting_tools.py      | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
index ef03912..9b42fe7 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment_plotting_tools.py
@@ -30,7 +30,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a1.set_title(
       "Before Time Alignment", y=title_position)
-  plt.hold("on")
 
   min_time = min(np.amin(times_A), np.amin(times_B))
   times_A_zeroed = times_A - min_time
@@ -48,7 +47,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   a3.set_title(
       "Correlation Result \n[Ideally has a single dominant peak.]",
       y=title_position)
-  plt.hold("on")
   plt.plot(np.arange(-len(signal_A) + 1, len(signal_B)), convoluted_signals)
 
   a2 = plt.subplot(1, 3, 3)
@@ -57,7 +55,6 @@ def plot_results(times_A, times_B, signal_A, signal_B,
   plt.xlabel('time [s]')
   a2.set_title(
       "After Time Alignment", y=title_position)
-  plt.hold("on")
   min_time = min(np.amin(times_A_shifted), np.amin(times_B))
   times_A_shifted_zeroed = times_A_shifted - min_time
   times_B_zeroed = times_B - min_time
-- 
2.43.0


From b95f7033fbea2bb104924c1e34d2e1ebaa9ddf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:02 +0000
Subject: [PATCH 29/32] fix: evaluate result files with the builtin bool,
 np.bool no longer exists

---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..4b9defc 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', bool, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', bool, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', bool, 1),
+      ('optimization_enabled', bool, 1),
+      ('optimization_success', bool, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 3f4a25822e35dacd05b4ed1b073dd22c33f26a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:02 +0000
Subject: [PATCH 30/32] fix: evaluate a result file with a single experiment

---
 .../experiment_plotting_tools.py                              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 4b9defc..34b8fd1 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -35,8 +35,8 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       header = np.genfromtxt(csv_file_name, dtype=str,
                              max_rows=1, delimiter=',')
       get_header = False
-      data = np.genfromtxt(csv_file_name, dtype=dt,
-                           skip_header=1, delimiter=',').copy()
+      data = np.atleast_1d(np.genfromtxt(csv_file_name, dtype=dt,
+                                         skip_header=1, delimiter=','))
     else:
       # print(header)
       body = np.genfromtxt(csv_file_name, dtype=dt,
-- 
2.43.0


From 02475881a824324d39d539425fb087c8c80cdd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:02 +0000
Subject: [PATCH 31/32] fix: do not evaluate the errors of failed optimizations

---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 34b8fd1..7cdce71 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -90,6 +90,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     loop_error_position_m = row[13]
     loop_error_orientation_deg = row[14]
     bad_singular_values = row[16]
+    optimization_success = row[18]
     runtime_optimization = row[19]
     initial_guess_angle = 0 if row[20] is None else row[20]
     if row[21] != "None":
@@ -106,7 +107,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     runtime += runtime_optimization
     method = method_name_dict[method]
 
-    if not success or bad_singular_values:
+    if not success or bad_singular_values or not optimization_success:
       # TODO(ff): Create a plot with the success rate?
       # And for the initial guess spoil this should also be incorporated.
       continue
-- 
2.43.0


From ab72181f473b8e2452d556fc2234989d3b8a7be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:02 +0000
Subject: [PATCH 32/32] fix: evaluate a missing perturbation as zero

---
 .../experiment_plotting_tools.py                              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 7cdce71..0d2ce69 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -92,7 +92,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     bad_singular_values = row[16]
     optimization_success = row[18]
     runtime_optimization = row[19]
-    initial_guess_angle = 0 if row[20] is None else row[20]
+    initial_guess_angle = 0 if np.isnan(row[20]) else row[20]
     if row[21] != "None":
       initial_guess_string = ' '.join((row[21].lstrip()).split()).replace(
           " ", ",").replace("[,", "[").replace(",,", ",")
@@ -101,7 +101,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       initial_guess_translation_norm = np.linalg.norm(initial_guess_translation)
     else:
       initial_guess_translation_norm = 0
-    initial_guess_time = 0 if row[22] is None else row[22]
+    initial_guess_time = 0 if np.isnan(row[22]) else row[22]
     dataset = row[23]
 
     runtime += runtime_optimization
-- 
2.43.0

