From a17e1c7597872f2563b4727c604917b82e046d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 01/55] fix: average() with quiet=True crashed on the unbound
 progress bar

---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 6d18641..bbeb7b6 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -175,7 +175,8 @@ def average(base, output, group=1, rolling=False, **kwargs):
         if not quiet:
             progress.update(i+1)
 
-    progress.finish()
+    if not quiet:
+        progress.finish()
 
 
 def recenter_maps(data_maps, recenter_values):
-- 
2.43.0


From 8924c5dd42fd322f0b66a04b889c7b06bb48aefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 02/55] fix: average() wrote a header not matching the data
 after combine, xlim/ylim, recenter or supersample

---
 strata/average.py | 44 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/strata/average.py b/strata/average.py
index bbeb7b6..21fc4dd 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -145,19 +145,26 @@ def average(base, output, group=1, rolling=False, **kwargs):
             else:
                 raise ValueError("Invalid position to recenter around ('%s'). Must be 'com', 'left' or 'right'" % recenter)
 
-            group_data, info = recenter_maps(group_data, xs_edges)
+            group_data, _ = recenter_maps(group_data, xs_edges)
 
         avg_data = module.average_data(*group_data)
 
-        if combine != (None, None):
-            avg_data, _ = module.combine_bins(avg_data, info, nx, ny)
+        # The output format needs the corner of the first bin as its origin
+        # and the shape of the data which is to be written
+        info = get_output_info(avg_data, info['spacing'])
 
-        if supersample != None:
-            data = [(l, avg_data[l]) for l in avg_data.keys()]
-            info = {
+        if combine != (None, None):
+            # The origin of the combined grid is calculated from bin mid-points
+            center_info = {
+                'origin': (np.min(avg_data['X']), np.min(avg_data['Y'])),
                 'shape': info['shape'],
                 'spacing': info['spacing'],
             }
+            avg_data, combined_info = module.combine_bins(avg_data, center_info, nx, ny)
+            info = get_output_info(avg_data, combined_info['spacing'])
+
+        if supersample != None:
+            data = [(l, avg_data[l]) for l in avg_data.keys()]
 
             flow = FlowData(*data, info=info)
 
@@ -165,11 +172,21 @@ def average(base, output, group=1, rolling=False, **kwargs):
                 flow, supersample, weights=[('U', 'M'), ('V', 'M'), ('T', 'N')]
             )
 
+            # The output data is ordered along x, then y
+            supersampled_data.sort(coord_labels=('Y', 'X'))
+
             avg_data = {
                 l: supersampled_data.data[l]
                 for l in supersampled_data.properties
             }
 
+            info = {
+                'origin': info['origin'],
+                'shape': supersampled_data.shape,
+                'spacing': supersampled_data.spacing,
+                'num_bins': supersampled_data.num_bins,
+            }
+
         write(fn_out, avg_data, info)
 
         if not quiet:
@@ -242,6 +259,21 @@ def recenter_maps(data_maps, recenter_values):
     return recentered_data, info
 
 
+def get_output_info(data, spacing):
+    """Return information for writing a map with bin mid-points in 'X' and 'Y'."""
+
+    origin = [np.min(data[l]) - 0.5*dx for l, dx in zip(('X', 'Y'), spacing)]
+    nx = len(np.unique(data['X']))
+    num_bins = len(data['X'])
+
+    return {
+        'origin': origin,
+        'spacing': spacing,
+        'shape': [nx, num_bins // nx],
+        'num_bins': num_bins,
+    }
+
+
 def cut_system(data, xlim, ylim):
     xs = data['X']
     ys = data['Y']
-- 
2.43.0


From f0994827624b7bd027c099d074744e25ed0480de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 03/55] fix: recenter_maps truncated the number of bins along x
 from a floating point quotient

---
 strata/average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index 21fc4dd..f1c5aa2 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -245,7 +245,7 @@ def recenter_maps(data_maps, recenter_values):
     # for all final maps we can cheat a little bit
     origin = [xmin, np.min(data_subset['Y'])]
     spacing = [spacing, np.mean(np.diff(np.unique(data_subset['Y'])))]
-    nx = int((xmax - xmin)/spacing[0]) + 1
+    nx = int(np.round((xmax - xmin)/spacing[0])) + 1
     num_bins = data_subset['X'].size
     shape = [nx, num_bins // nx]
 
-- 
2.43.0


From 7b5f9a9c7dbb1baa7efae3c7e6f1047e3f70075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 04/55] fix: gmx reader misplaced the data of files whose last
 header chunk is short

---
 strata/dataformats/gmx_flow_version_1/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 692be0f..06917bd 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -79,7 +79,7 @@ def read_header(fp):
 
             if pos != -1:
                 header_str += buf[:pos].decode("ascii")
-                offset = buf_size - pos - 1
+                offset = len(buf) - pos - 1
                 fp.seek(-offset, 1)
                 break
             else:
-- 
2.43.0


From 436bdd8555ac84d5addd26c00fa8bdfb212bfbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 05/55] fix: gmx reader hung on an unterminated header and
 accepted truncated data

---
 strata/dataformats/gmx_flow_version_1/read.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/strata/dataformats/gmx_flow_version_1/read.py b/strata/dataformats/gmx_flow_version_1/read.py
index 06917bd..68dff8f 100644
--- a/strata/dataformats/gmx_flow_version_1/read.py
+++ b/strata/dataformats/gmx_flow_version_1/read.py
@@ -48,11 +48,17 @@ def read_values(fp, num_values, fields):
         'V': np.float32,
     }
 
-    return {
+    data = {
         l: np.fromfile(fp, dtype=dtypes[l], count=num_values)
         for l in fields
     }
 
+    if any(values.size != num_values for values in data.values()):
+        raise ValueError("%r does not contain %d values for every field"
+                % (fp.name, num_values))
+
+    return data
+
 def read_header(fp):
     """Read header information and forward the pointer to the data."""
 
@@ -75,6 +81,9 @@ def read_header(fp):
         while True:
             buf = fp.read(buf_size)
 
+            if not buf:
+                raise ValueError("header of %r is not terminated" % fp.name)
+
             pos = buf.find(b'\0')
 
             if pos != -1:
-- 
2.43.0


From 39604e6547c393161d6a0075ca66f4ecf584dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 06/55] fix: simple binary maps whose first bytes are valid
 text were read as plain text

---
 strata/dataformats/simple/read.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 73758c4..9c9b235 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -28,8 +28,9 @@ def read_data(filename, decimals=5):
         def is_binary(filename, checksize=512):
             with open(filename, 'r') as fp:
                 try:
-                    fp.read(checksize)
-                    return False
+                    # Plain text does not contain null bytes, while raw
+                    # floating point values can be valid text otherwise
+                    return '\0' in fp.read(checksize)
                 except UnicodeDecodeError:
                     return True
 
-- 
2.43.0


From 2acd91f9ccb754183325f82059a12857fb7c5ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 07/55] fix: simple reader gave nan coordinates for maps with a
 single row or column

---
 strata/dataformats/simple/read.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 9c9b235..26c095b 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -100,11 +100,11 @@ def calc_information(X, Y):
             x0 = np.min(xs)
             x1 = np.max(xs)
 
-            try:
-                return (x1 - x0) / (n - 1)
-            except:
+            if n < 2:
                 return 0.0
 
+            return (x1 - x0) / (n - 1)
+
         dx = calc_1d(X, nx)
         dy = calc_1d(Y, ny)
 
-- 
2.43.0


From 48642ea35b46bef0d25c22f2249f0194e21b4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 08/55] fix: simple plain text reader failed on maps with a
 single bin

---
 strata/dataformats/simple/read.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 26c095b..6dd06c3 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -170,7 +170,7 @@ def read_plainsimple(filename):
     """
 
     def read_file(filename):
-        raw_data = np.genfromtxt(filename, names=True)
+        raw_data = np.atleast_1d(np.genfromtxt(filename, names=True))
 
         # Unpack into dictionary
         data = {}
-- 
2.43.0


From 89362d9945ce349726a8e74d6f685a1674ef3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 09/55] fix: contact line analysis with quiet=True crashed on
 the unbound progress bar

---
 strata/contact_line_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 7d9c66e..bb68fe0 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -268,6 +268,8 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         return (nx, ny)
 
     quiet = kwargs.pop('quiet', False)
+    progress = None
+
     if not quiet:
         if rolling:
             length = len(filenames) - average + 1
-- 
2.43.0


From b97196a975b28af052bc054ab1fdf04434aba6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 10/55] fix: contact line sampling always exited on an
 undefined deviation

---
 strata/contact_line_analysis.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index bb68fe0..0e0e542 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -183,17 +183,16 @@ def sample_contact_line_edges(base, labels, save=None,
                     ]
 
                 means = [t[0] for t in means_and_stds]
-                # stds = [t[1] for t in means_and_stds]
 
                 if sum:
                     value = np.sum(means)
                 else:
                     value = np.mean(means)
 
-                # try:
-                    # std = np.mean([t[1] for t in means_and_stds])
-                # except:
-                    # std = None
+                try:
+                    std = np.mean([t[1] for t in means_and_stds])
+                except TypeError:
+                    std = None
 
                 samples[j].append([value, std])
             except Exception as exc:
-- 
2.43.0


From be16c8f3d7597a401bb7e43df3312a6ec5213ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 11/55] fix: contact line collection could not write its output
 maps

---
 strata/contact_line_analysis.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 0e0e542..d03bb9b 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -69,7 +69,23 @@ def extract_contact_line_bins(base, output, average=1,
             fuse_edges(avg_flow_per_edge, spacing)
 
         recombined_flow_data = combine_flow_data(avg_flow_per_edge, spacing)
-        write(next(fnout), recombined_flow_data.data)
+        write_flow_data(next(fnout), recombined_flow_data)
+
+
+def write_flow_data(path, flow):
+    """Write a flow map whose coordinates are the bottom-left bin corners."""
+
+    # The output data is ordered along x, then y
+    flow.sort(coord_labels=('Y', 'X'))
+
+    info = {
+        'shape': flow.shape,
+        'spacing': flow.spacing,
+        'origin': [np.min(flow.data[l]) for l in ('X', 'Y')],
+        'num_bins': flow.data.size,
+    }
+
+    write(path, flow.data, info)
 
 
 """Fuse the left and right edges in the center."""
-- 
2.43.0


From 7772bd57e38152c214c2ed5bc5a1afd3c58f933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 12/55] fix: shape of contact line bins was wrong for a single
 row or if dx and dy differ

---
 strata/contact_line_analysis.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index d03bb9b..13d84d1 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -450,20 +450,9 @@ def add_adjusted_flow(bins, direction, info):
 
     """
 
-    def get_cut_shape(data, dx, dy):
-        # After sorting, the data is in y-major, x-minor order
-        ys = data['Y']
-        y0 = ys[0]
-        nx = 1
-
-        while (ys[nx] >= y0 - 0.5 * dy) and (ys[nx] < y0 + 0.5 * dx):
-            nx += 1
-
-        ny = data.size // nx
-
-        return nx, ny
-
-    dx, dy = info['spacing']
+    def get_cut_shape(data):
+        # The bins are a rectangular cut from a regular grid
+        return tuple(len(np.unique(data[l])) for l in ('X', 'Y'))
 
     xadj, data = adjust_cell_coordinates(bins, direction)
 
@@ -472,7 +461,7 @@ def add_adjusted_flow(bins, direction, info):
     flow = FlowData(*adj_data, info=info)
     flow.sort()
 
-    nx, ny = get_cut_shape(flow.data, dx, dy)
+    nx, ny = get_cut_shape(flow.data)
 
     flow.origin = xadj
     flow.shape = (nx, ny)
-- 
2.43.0


From cbf4110af71711d9d2b2d41ddcea3b233ad010ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 13/55] fix: output headers need the strata.strata module,
 which library calls did not import

---
 strata/interface/angle.py | 2 +-
 strata/spreading/fit.py   | 2 +-
 strata/utils.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/strata/interface/angle.py b/strata/interface/angle.py
index 3b3edc9..cf9a30c 100644
--- a/strata/interface/angle.py
+++ b/strata/interface/angle.py
@@ -139,7 +139,7 @@ def write_angle_data(path, base, height, times, angles, **kwargs):
     """
 
     def get_header(path, base, height, **kwargs):
-        import strata
+        import strata.strata
         import time
 
         time_str = time.strftime('%c', time.localtime())
diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 13663dc..3825e21 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -192,7 +192,7 @@ def write_fitting_data(path, all_series, lims, out_lims):
     """
 
     def write_header(path, all_series):
-        import strata
+        import strata.strata
         import time
 
         with open(path, 'w') as fp:
diff --git a/strata/utils.py b/strata/utils.py
index 40373f2..c533794 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -423,7 +423,7 @@ def write_module_header(file, module, title):
     """Write a module creation header with title to input file."""
 
     import inspect
-    import strata
+    import strata.strata
     import time
 
     time_str = time.strftime('%c', time.localtime())
-- 
2.43.0


From 089a8e32169922c97d2be5676e8b9ffe0d7d05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 14/55] fix: sample_per_angle_from put bins along negative x at
 0 degrees instead of 180

---
 droplets/sample.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index 35747ae..cf41f13 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -61,11 +61,11 @@ def sample_per_angle_from(flow, origin, label,
     drs = np.sqrt(dxs**2 + dys**2)
 
     # Apply radius cutoffs and calculate angles for bins
-    inds_rlim = (drs >= rmin) & (drs <= rmax)
+    # (the angle to a bin at the point itself is undefined)
+    inds_rlim = (drs >= rmin) & (drs <= rmax) & (drs > 0.)
     data_rlim = flow.data[inds_rlim]
 
-    bin_rads = np.sign(dys[inds_rlim]) \
-        * np.arccos(dxs[inds_rlim]/drs[inds_rlim])
+    bin_rads = np.arctan2(dys[inds_rlim], dxs[inds_rlim])
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-- 
2.43.0


From 41cbf230c10011e700f9b0b323cbbd238921fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 15/55] fix: sample_per_angle_from dropped all bins inside the
 final angular interval

---
 droplets/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/sample.py b/droplets/sample.py
index cf41f13..62ecd9b 100644
--- a/droplets/sample.py
+++ b/droplets/sample.py
@@ -69,7 +69,7 @@ def sample_per_angle_from(flow, origin, label,
     bin_degrees = np.mod(np.degrees(bin_rads), 360)
 
     # Apply angular cutoffs to remaining bins
-    inds_alim = (bin_degrees >= amin) & (bin_degrees <= amax)
+    inds_alim = (bin_degrees >= amin) & (bin_degrees < amax + size)
     data_alim = data_rlim[inds_alim]
     label_data = data_alim[label]
 
-- 
2.43.0


From 74c0dfb5234c339a46ef8cde061087ac6ba82ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 16/55] fix: sampling viscous dissipation reordered the data
 for labels sampled after it

---
 strata/sample_average.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strata/sample_average.py b/strata/sample_average.py
index 660ce81..4dfaa1e 100644
--- a/strata/sample_average.py
+++ b/strata/sample_average.py
@@ -176,6 +176,9 @@ def sample_value(flow, label, cutoff, cutoff_label, sum, viscosity):
     if label == 'inertial_energy':
         sample_data = sample_inertial_energy(flow).ravel()
     elif label == 'visc_diss':
+        # The dissipation is calculated for sorted data: work on a copy
+        # since other labels may be sampled from the input
+        flow = flow.copy()
         sample_data = sample_viscous_dissipation(flow, viscosity).ravel()
     elif label == 'flow_angle':
         # If we are sampling the flow angle mean we do things a bit
-- 
2.43.0


From 9bf3628b7f845feca854b0e6fb2bad44c31cb75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 17/55] fix: default cutoff radius of get_interface ignored the
 distance between cells along y

---
 droplets/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index fe6baa6..7ac0871 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -182,7 +182,7 @@ def get_interface(flow, label, **kwargs):
         if radius == None:
             xdiff = np.diff(np.unique(data[xlabel]))
             ydiff = np.diff(np.unique(data[ylabel]))
-            radius = next(np.min(map(np.min, (xdiff, ydiff))))
+            radius = np.min(np.append(xdiff, ydiff))
 
         return radius
 
-- 
2.43.0


From e2d7aa54f192f171370384678ab1aeaf0e9f900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 18/55] fix: get_interface returned wrong cells of unsorted
 data when searching the longest stretch

---
 droplets/interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 7ac0871..e08805f 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -316,7 +316,9 @@ def get_interface(flow, label, **kwargs):
             # These are then the full data for the layer of the current y-value.
             # We then sort it, to traverse it in the order of increasing x.
             layer = data[indices]
-            sorted_layer = np.sort(layer, order=xlabel)
+            order = np.argsort(layer, order=xlabel)
+            indices = indices[order]
+            sorted_layer = layer[order]
 
             # Limit the search for cell neighbours in the data which is
             # within the possible radius of the layer.
@@ -342,7 +344,6 @@ def get_interface(flow, label, **kwargs):
             # one was found), as indices from the input `sorted_layer`.
             # We then return the corresponding indices from our full
             # dataset.
-            # TODO: This does not account for an unsorted input dataset though??
             if result != None:
                 left, right = result
                 yield [indices[edge] for edge in (left, right)]
-- 
2.43.0


From 4256bd065e9c3ffc262bf02eac97000e2abedb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 19/55] fix: get_contact_angle raised instead of returning
 (None, None) if no angle is found

---
 droplets/interface.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index e08805f..727e791 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -76,13 +76,20 @@ def get_contact_angle(flow, height, label, **kwargs):
     kwargs['ylims'] = (yfloor, None)
 
     interface = get_interface(flow, label, **kwargs)
-    indices = next(interface)
+    indices = next(interface, None)
+
+    # Break if no interface is found
+    if indices is None:
+        return None, None
+
     ymin, xedges = get_coords(flow, indices)
 
     # Break if a floor was specified and no cells are found in that layer
     if floor != None and ymin != yfloor:
         return None, None
 
+    angles = None, None
+
     for indices in interface:
         y, xs = get_coords(flow, indices)
         dy = y - ymin
-- 
2.43.0


From c4ab8e75845f8993d798d8df17cfb4ad7af598de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 20/55] fix: spreading collect wrote no impact header after an
 earlier collection in the same process

---
 strata/spreading/collect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index d7ae38e..cda7bb7 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -109,6 +109,7 @@ def collect(base, **kwargs):
         progress.start()
 
     pbc_info = init_periodic_info()
+    write_spreading.impact = False
 
     for i, (data, info, meta) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
-- 
2.43.0


From 845bde63d23554db86be39c7f4c24fcdaee59740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 21/55] fix: spreading times did not advance for maps without
 spreading after the impact

---
 strata/spreading/collect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index cda7bb7..b1514bf 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -143,6 +143,8 @@ def collect(base, **kwargs):
                     save, time, radius, left_absolute, right_absolute, cur_path
                 )
 
+        # The time is advanced for every map after the impact
+        if times:
             time += dt
 
         if not quiet:
-- 
2.43.0


From 08a3f2848adc0b74d3b1e9c27423df2f4ed9c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 22/55] fix: spreading plots used the removed
 matplotlib.pyplot.hold

---
 strata/spreading/fit.py  | 1 -
 strata/spreading/view.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 3825e21..336ec7e 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -170,7 +170,6 @@ def plot_fitting_data(fit_data, data, **kwargs):
 
     """
 
-    plt.hold(True)
     for s_fit, s_data in zip(fit_data, data):
         fit_label = s_fit.name.strip(s_data.name).strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cde7325..3cdf2e4 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -349,6 +349,5 @@ def plot_spreading_data(all_series, **kwargs):
 
     """
 
-    plt.hold(True)
     for s in all_series:
         plt.plot(s.index, s.values, **kwargs)
-- 
2.43.0


From 045df9a73312da404f9dba29f5869705a91ed2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 23/55] fix: view_spreading required the optional save_xvg
 keyword

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 3cdf2e4..cc0d04f 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -50,7 +50,7 @@ def view_spreading(files, **kwargs):
             tau=kwargs.pop('tau', 1.), R=kwargs.pop('R', 1.)
             )
 
-    save_path = kwargs.pop('save_xvg')
+    save_path = kwargs.pop('save_xvg', None)
     if save_path:
         try:
             write_spreading_data(save_path, synced_data)
-- 
2.43.0


From 66bbe0f41efd50e250c08b667a7f064591e47d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 24/55] fix: spreading files with a single row were read as
 having no data

---
 strata/spreading/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index cc0d04f..24b2d50 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -184,7 +184,7 @@ def read_spreading_data(*files):
         def read_plain_file(filename):
             """Read a simple file, comments starting with '#'."""
 
-            data = np.loadtxt(filename, unpack=True, comments='#')
+            data = np.loadtxt(filename, unpack=True, comments='#', ndmin=2)
             times = data[0]
             all_series = [get_series(radii, times, filename, i+1)
                     for i, radii in enumerate(data[1:])]
-- 
2.43.0


From c819adc10f78ffc7ff189a37bee0b74932cf5ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 25/55] fix: interface collect command failed unpacking a
 missing return value

---
 strata/strata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/strata.py b/strata/strata.py
index 0c7439a..7be1845 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -495,7 +495,7 @@ def interface_collect_cli(base, output, **kwargs):
 
     set_none_to_inf(kwargs)
     if kwargs['recenter'] == 'off': kwargs['recenter'] = None
-    xs, ys = collect_interfaces(base, output, **kwargs)
+    collect_interfaces(base, output, **kwargs)
 
 
 # Interface viewing wrapper
-- 
2.43.0


From 97233f795254128997b55e3b8fc4147c0674d6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 26/55] fix: interface view could not save averaged interfaces

---
 strata/interface/view.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/interface/view.py b/strata/interface/view.py
index 60f2f82..2bd258e 100644
--- a/strata/interface/view.py
+++ b/strata/interface/view.py
@@ -82,7 +82,11 @@ def view_interfaces(base, average=1, save_xvg='', **kwargs):
             continue
 
         if save_xvg != '':
-            write_interface_data(fnout, interface, fngroup, kwargs)
+            coordinates = {
+                'X': interface.values,
+                'Y': interface.index.values
+            }
+            write_interface_data(fnout, coordinates, fngroup, kwargs)
 
         if save_fig != None:
             kwargs['save_fig'] = next(fnfig)
-- 
2.43.0


From 5df7ba6aef0249098d2cb7098cd20e546ece72ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 27/55] fix: interface layer index was truncated from a
 floating point quotient

---
 strata/interface/collect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index d419846..922be1c 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -161,7 +161,8 @@ def get_yindex_for_value(y, yindex_data):
     """
 
     y = min(max(y, yindex_data.ymin), yindex_data.ymax)
-    return int((y - yindex_data.ymin) / yindex_data.dy)
+    # Allow for floating point noise in exact multiples of the spacing
+    return int((y - yindex_data.ymin) / yindex_data.dy + 1e-6)
 
 def transfer_values(xs, yindex_data, yindex_data_new):
     """Transfer data from an array to one with a new indexing.
-- 
2.43.0


From a0d0dae4d936bb3c6844b6fe5374eea220b9a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:58 +0000
Subject: [PATCH 28/55] fix: rolling contact line jobs with too few files
 failed in the progress bar

With at least two files less than the averaging length the progress bar
got a negative maximum and raised instead of giving no output.
---
 strata/contact_line_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index 13d84d1..d8e7a9f 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -287,7 +287,7 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
 
     if not quiet:
         if rolling:
-            length = len(filenames) - average + 1
+            length = max(0, len(filenames) - average + 1)
         else:
             length = int(len(filenames) / average)
 
-- 
2.43.0


From edad249a01dc9efd98505f095bed6a24890c55a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 29/55] fix: average_flow_data failed on empty data sets which
 were not excluded

---
 droplets/average.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index a3d8a27..2cf0268 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -202,6 +202,10 @@ def transfer_data(grid, data, shape, spacing, coord_labels=('X', 'Y')):
     xl, yl = coord_labels
     projected_data = grid.copy()
 
+    # An empty set has no bins to project
+    if data.size == 0:
+        return projected_data.ravel()
+
     dx, dy = spacing
     nx, ny = shape
 
-- 
2.43.0


From c4a36ab17f86b5acf5fea0ae12157ed9a52f5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 30/55] fix: periodic interface search assumed that coordinates
 begin at zero

---
 droplets/interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/droplets/interface.py b/droplets/interface.py
index 727e791..82cbe66 100644
--- a/droplets/interface.py
+++ b/droplets/interface.py
@@ -297,12 +297,15 @@ def get_interface(flow, label, **kwargs):
         # the data from each side to the other and adjusting the positions.
         # This means that we can walk through the system and assert that
         # all bins within the cutoff radius are included, even if they are
-        # on the other side of the periodic boundary.
-        left_edge_indices = np.where(data[xlabel] <= cutoff_radius)
+        # on the other side of the periodic boundary. One bin is added to be
+        # on the safe side, the radius is checked for every cell.
+        xmin = data[xlabel].min()
+
+        left_edge_indices = np.where(data[xlabel] <= xmin + cutoff_radius + dx)
         left_pbc_data = data[left_edge_indices]
         left_pbc_data[xlabel] += box_x
 
-        right_edge_indices = np.where(data[xlabel] >= box_x - cutoff_radius)
+        right_edge_indices = np.where(data[xlabel] >= xmin + box_x - cutoff_radius - dx)
         right_pbc_data = data[right_edge_indices]
         right_pbc_data[xlabel] -= box_x
 
-- 
2.43.0


From 1c8c4af873af8f2a5d9d76fe0b69959c35861358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 31/55] fix: average_flow_data looked for the origin in X and Y
 whatever the coord_labels

---
 droplets/average.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/droplets/average.py b/droplets/average.py
index 2cf0268..2bd692a 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -57,8 +57,8 @@ def average_flow_data(input_flow_maps, weights=[],
 
     def get_flowdata(data, grid, spacing):
         ny, nx = grid.shape
-        x0 = grid[0, 0]['X']
-        y0 = grid[0, 0]['Y']
+        x0 = grid[0, 0][xl]
+        y0 = grid[0, 0][yl]
 
         info = {
                 'shape': (nx, ny),
-- 
2.43.0


From 9dbc5f0d20ad64079eb6ff487586a24be0bdf51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 32/55] fix: cutting flow data removed bins outside of an
 earlier cut's origin

---
 droplets/flow.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/droplets/flow.py b/droplets/flow.py
index c118a6e..92a68b0 100644
--- a/droplets/flow.py
+++ b/droplets/flow.py
@@ -143,24 +143,18 @@ class FlowData(object):
 
 
     def cut(self, xlim=(None, None), ylim=(None, None)):
-        max_coords = [o + n * dx
-                for o, n, dx in zip(self.origin, self.shape, self.spacing)
-                ]
-        xmin, xmax = xlim
-        xmin = xmin if xmin != None else self.origin[0]
-        xmax = xmax if xmax != None else max_coords[0]
-        flow = self.lims('X', xmin, xmax)
+        flow = self.lims('X', *xlim).lims('Y', *ylim)
 
-        ymin, ymax = ylim
-        ymin = ymin if ymin != None else self.origin[1]
-        ymax = ymax if ymax != None else max_coords[1]
-        flow = flow.lims('Y', ymin, ymax)
+        xmin, ymin = [o if vmin is None else vmin
+                for o, (vmin, _) in zip(self.origin, (xlim, ylim))
+                ]
+        origin = None if None in (xmin, ymin) else (xmin, ymin)
 
         shape = [len(np.unique(flow.data[l])) for l in ('X', 'Y')]
 
         info = {
             'spacing': self.spacing,
-            'origin': (xmin, ymin),
+            'origin': origin,
             'shape': shape,
             'num_bins': shape[0] * shape[1]
         }
-- 
2.43.0


From 4bc801b7139dc8f914a6ce14c167cbe35e469dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 33/55] fix: droplet edges were unwrapped wrongly when
 coordinates do not begin at zero

---
 strata/spreading/collect.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/strata/spreading/collect.py b/strata/spreading/collect.py
index b1514bf..dbde960 100644
--- a/strata/spreading/collect.py
+++ b/strata/spreading/collect.py
@@ -242,7 +242,8 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
     The boundary that it crossed is that which is furthest away from its new
     position, by which we can infer how to adjust box-relative position to
-    the system-absolute.
+    the system-absolute. Since the edge moved to the other side of the system
+    this is given by the direction in which its box-relative position changed.
 
     Note that this function assumes that at all times, the system-absolute
     position of the left edge is smaller (along x) than the system-absolute
@@ -266,10 +267,10 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
     """
 
-    def get_pbc_edge_multiplier_addition(x_current, box_x):
+    def get_pbc_edge_multiplier_addition(x_current, x_prev):
         """Return -1 if the left edge was crossed, +1 if the right edge."""
 
-        if x_current % box_x > abs(box_x - x_current % box_x):
+        if x_current > x_prev:
             return -1
         else:
             return +1
@@ -287,9 +288,6 @@ def check_and_update_periodic_info(pbc_info, box_x,
     pbc_multiplier_left = pbc_info.pbc_multiplier_left
     pbc_multiplier_right = pbc_info.pbc_multiplier_right
 
-    xleft = xleft_current + pbc_multiplier_left * box_x
-    xright = xright_current + pbc_multiplier_right * box_x
-
     try:
         crossing_event = detect_crossing_event(xleft_current, xright_current,
             pbc_info.xleft_prev, pbc_info.xright_prev)
@@ -306,11 +304,11 @@ def check_and_update_periodic_info(pbc_info, box_x,
 
             if dx_left > dx_right:
                 pbc_multiplier_left += get_pbc_edge_multiplier_addition(
-                    xleft, box_x
+                    xleft_current, pbc_info.xleft_prev
                 )
             else:
                 pbc_multiplier_right += get_pbc_edge_multiplier_addition(
-                    xright, box_x
+                    xright_current, pbc_info.xright_prev
                 )
 
     pbc_info = PeriodicInfo(
-- 
2.43.0


From 98b43063a262eafbe817a3d577ab83b8cc36bb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 34/55] fix: collected interface files listed themselves as
 their input file

---
 strata/interface/collect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 922be1c..ddce398 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -66,7 +66,7 @@ def collect_interfaces(base, output, recenter=None, **kwargs):
             flow, label, pbc_info_per_y, yindex_data, recenter, **kwargs
         )
 
-        write_interface_data(fnout, interface, [fnout], kwargs, recenter)
+        write_interface_data(fnout, interface, [fn], kwargs, recenter)
 
         if not quiet:
             progress.update(i + 1)
-- 
2.43.0


From 465a8aa6b3fa74827a33965f54da9536670d3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 35/55] fix: interface collection failed on interfaces of a
 single layer

---
 strata/interface/collect.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index ddce398..41ab2bb 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -115,9 +115,10 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
     xs_right = flow.data[xl][right]
 
     box_x, _ = flow.size()
+    _, dy = flow.spacing
 
     interface, pbc_info_per_y, yindex_data = update_interface_with_pbc_info(
-        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data
+        ys, xs_left, xs_right, box_x, pbc_info_per_y, yindex_data, dy=dy
     )
 
     xs = interface['X']
@@ -136,15 +137,17 @@ def get_interface_coordinates(flow, label, pbc_info_per_y, yindex_data,
 # Data for indexing a vector for floating point y-values.
 YIndexData = namedtuple("YIndexData", ["ymin", "ymax", "dy", "num"])
 
-def get_yindex_data(ys):
+def get_yindex_data(ys, dy=None):
     """Return the `YIndexData` corresponding to the input valuesself.
 
     Note that this assumes that all the values in the input array are
-    evenly spaced.
+    evenly spaced. The spacing `dy` is only used for a single value, for
+    which it cannot be calculated.
 
     """
 
-    dy = np.unique(np.diff(ys))[0]
+    if ys.size > 1 or dy is None:
+        dy = np.unique(np.diff(ys))[0]
 
     return YIndexData(
         ymin=np.min(ys),
@@ -269,10 +272,10 @@ def fill_pbc_info_for_empty_y_values(pbc_info_per_y):
     return pbc_info_per_y
 
 def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
-        old_pbc_info_per_y, old_yindex_data):
+        old_pbc_info_per_y, old_yindex_data, dy=None):
     """Check whether the interface jumps for any y-value and update pbc info."""
 
-    new_yindex_data = get_yindex_data(ys)
+    new_yindex_data = get_yindex_data(ys, dy)
     new_pbc_info_per_y = transfer_values(
         old_pbc_info_per_y, old_yindex_data, new_yindex_data
     )
-- 
2.43.0


From 54764a0d6f6aef89974935fe5ba7f0f3713b2f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 36/55] fix: interfaces across the periodic boundary were torn
 apart in the first map

---
 strata/interface/collect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 41ab2bb..572a3fc 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -282,7 +282,11 @@ def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
     new_pbc_info_per_y = fill_pbc_info_for_empty_y_values(new_pbc_info_per_y)
 
     for i, (y, xl, xr) in enumerate(zip(ys, xs_left, xs_right)):
-        pbc_info = new_pbc_info_per_y[i]
+        # In the first map, adjust each layer to the one below
+        if old_yindex_data == None and i > 0:
+            pbc_info = new_pbc_info_per_y[i - 1]
+        else:
+            pbc_info = new_pbc_info_per_y[i]
 
         if pbc_info != None:
             new_pbc_info = check_and_update_periodic_info(
-- 
2.43.0


From 9ae8addee19d4ffb6a4e2553a07a5e7960747c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 37/55] fix: place contact line averages at the mean edge of
 the maps that have one

---
 strata/contact_line_analysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strata/contact_line_analysis.py b/strata/contact_line_analysis.py
index d8e7a9f..62b393f 100644
--- a/strata/contact_line_analysis.py
+++ b/strata/contact_line_analysis.py
@@ -323,8 +323,11 @@ def get_averaged_contact_line_edges(filenames, average, rolling,
         for data_list in [left, right]:
             coord_adjs, flow_data = np.array(data_list).T.tolist()
 
-            # Get mean adjusting x coordinate of edge
-            xadj_mean = np.mean(coord_adjs, axis=0)[0]
+            # Get mean adjusting x coordinate of edge, for the maps
+            # which have an edge and thus are part of the average
+            xadjs = [xadj for (xadj, _), flow in zip(coord_adjs, flow_data)
+                     if flow.data.size > 0]
+            xadj_mean = np.mean(xadjs) if xadjs else 0.
             xadj_per_edge.append(xadj_mean)
 
             avg_flow_per_edge.append(
-- 
2.43.0


From 906ffc24ba0c6315bc251720df8d6feb67de8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 38/55] fix: density gradients used the bin spacing along the
 other axis

---
 strata/view_flowmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index ac48508..3cad136 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -423,7 +423,7 @@ def add_density_gradient(flow):
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], *reversed(spacing), edge_order=1
         )
 
     flow.data = append_fields(flow.data, 'grad_rho_x', mass_gradient_x.ravel(),
@@ -454,7 +454,7 @@ def add_evaporation(flow):
     data = flow.data.reshape(ny, nx)
 
     mass_gradient_y, mass_gradient_x = np.gradient(
-        data['M'], *spacing, edge_order=1
+        data['M'], *reversed(spacing), edge_order=1
         )
 
     us = data['U']
-- 
2.43.0


From e60626bfd6d97b7e6661d97190fd00c921b7b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 39/55] fix: flow fields left out bins whose flow is along one
 axis only

---
 strata/view_flowmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 3cad136..92e4bb8 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -185,7 +185,7 @@ def get_quiver_data(data, labels, coord_labels, colour, clim, xlim, ylim):
     us, vs = (data[l] for l in labels)
 
     # Cut bins without flow
-    inds = (us != 0.) & (vs != 0.)
+    inds = (us != 0.) | (vs != 0.)
 
     # Apply limits on coordinates
     inds = inds & cut_system(xs, xlim) & cut_system(ys, ylim)
-- 
2.43.0


From 7b0e5e10c2415bb1d2eb1772e9c3974c48ffccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 40/55] fix: viewing the viscous dissipation failed for all
 files but the first

---
 strata/view_flowmap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 92e4bb8..de34991 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -258,14 +258,17 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
     kwargs.setdefault('noaxis', True)
     kwargs.setdefault('coord_labels', ('X', 'Y'))
 
+    add_visc_diss = label == 'visc_diss'
+    if add_visc_diss:
+        label = 'visc'
+
     for i, (data, info, _) in enumerate(read_from_files(*files)):
         flow = FlowData(data, info=info)
 
         if label == 'flow':
             flow.data = add_absolute_flow(flow.data)
 
-        if label == 'visc_diss':
-            label = 'visc'
+        if add_visc_diss:
             add_viscous_dissipation(flow, viscosity=8.77e-4)
 
         if label == 'evaporation':
-- 
2.43.0


From 41496194ad0af821f29f844e080e47b0eeb22281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:00 +0000
Subject: [PATCH 41/55] fix: bins below the cutoff of a height map were drawn
 as zeros and displaced the others

---
 strata/view_flowmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index de34991..78160f4 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -278,7 +278,9 @@ def view_flowmap_2d(*files, label='M', type='heightmap',
             add_density_gradient(flow)
 
         if cutoff != None and cutoff_label != None:
-            flow = flow.lims(cutoff_label, cutoff, None)
+            # Hide the bins but keep the grid that they are drawn on
+            hidden = ~(flow.data[cutoff_label] >= cutoff)
+            flow.data[label] = np.where(hidden, np.nan, flow.data[label])
 
         if print_avg_value:
             print_average_value(flow.data, label, kwargs)
-- 
2.43.0


From 4525830e3f3a82c5908f41c19131690c6240fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 42/55] fix: flow fields could not be drawn as stream lines

---
 strata/view_flowmap.py | 59 ++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/strata/view_flowmap.py b/strata/view_flowmap.py
index 78160f4..6969cc8 100644
--- a/strata/view_flowmap.py
+++ b/strata/view_flowmap.py
@@ -79,51 +79,54 @@ def view_flowfields(*files, labels=('U', 'V'), cutoff_label='M', cutoff=None,
             break
 
 def get_streamline_data(flow, labels, coord_labels, colour, clim, xlim, ylim):
-    x0, y0 = flow.origin
     dx, dy = flow.spacing
 
-    data = flow.data
-
     cutoff_label, cutoff_value = clim
 
+    # The data has to be in y-major, x-minor order for the grid
     xlabel, ylabel = coord_labels
+    data = np.sort(np.asarray(flow.data), order=[ylabel, xlabel])
+
     xmin, xmax = xlim
     ymin, ymax = ylim
 
-    mask = (data[cutoff_label] < cutoff_value)
-
-    data = np.ma.array(data, mask=mask)
+    if cutoff_value != None:
+        mask = data[cutoff_label] < cutoff_value
+    else:
+        mask = np.zeros(data.size, dtype=bool)
 
-    x0 = max(data['X'].min(), xmin if xmin else -np.inf)
-    x1 = min(data['X'].max(), xmax if xmax else np.inf)
-    y0 = max(data['Y'].min(), ymin if ymin else -np.inf)
-    y1 = min(data['Y'].max(), ymax if ymax else np.inf)
+    # Draw the smallest rectangle with all bins of the system
+    # which lie inside of the axis limits
+    xs, ys = (data[l] for l in coord_labels)
 
-    inds = (data[xlabel] >= x0) \
-        & (data[xlabel] <= x1) \
-        & (data[ylabel] >= y0) \
-        & (data[ylabel] <= y1)
+    x0 = max(xs[~mask].min(), xmin if xmin != None else -np.inf)
+    x1 = min(xs[~mask].max(), xmax if xmax != None else np.inf)
+    y0 = max(ys[~mask].min(), ymin if ymin != None else -np.inf)
+    y1 = min(ys[~mask].max(), ymax if ymax != None else np.inf)
 
-    data = data[inds]
+    inds = (xs >= x0) & (xs <= x1) & (ys >= y0) & (ys <= y1)
 
-    x0 = data[xlabel].min()
-    x1 = data[xlabel].max()
-    y0 = data[ylabel].min()
-    y1 = data[ylabel].max()
+    x0, x1 = xs[inds].min(), xs[inds].max()
+    y0, y1 = ys[inds].min(), ys[inds].max()
 
-    nx = int((x1 - x0) / dx) + 2
-    ny = int((y1 - y0) / dy) + 2
+    nx = int(round((x1 - x0) / dx)) + 1
+    ny = int(round((y1 - y0) / dy)) + 1
 
-    data = data.reshape(nx, ny).transpose()
+    data, mask = data[inds].reshape(ny, nx), mask[inds].reshape(ny, nx)
 
     x = x0 + np.arange(nx) * dx
     y = y0 + np.arange(ny) * dy
 
-    u = data['U']
-    v = data['V']
+    ulabel, vlabel = labels
+    u, v, line_weights = (
+        np.ma.array(data[l], mask=mask) for l in (ulabel, vlabel, 'M')
+    )
 
-    weights = data[colour]
-    line_weights = data['M']
+    # Weights are either from input label or unit
+    if colour in data.dtype.names:
+        weights = np.ma.array(data[colour], mask=mask)
+    else:
+        weights = np.ma.array(np.ones(mask.shape), mask=mask)
 
     return x, y, u, v, weights, line_weights
 
@@ -134,8 +137,8 @@ def plot_streamlines(xs, ys, us, vs, weights, line_weights=None, **kwargs):
 
     ny, nx = us.shape
 
-    density_x = nx // 30
-    density_y = ny // 30
+    density_x = max(1, nx // 30)
+    density_y = max(1, ny // 30)
 
     linewidth = 1.5 * line_weights / line_weights.max()
 
-- 
2.43.0


From 386df4b9aa44b8dee251a603d1e2b072f4691e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 43/55] fix: Grace files without @target lines, or with
 comments among the data, were read as empty

---
 strata/spreading/view.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/strata/spreading/view.py b/strata/spreading/view.py
index 24b2d50..6d6d918 100644
--- a/strata/spreading/view.py
+++ b/strata/spreading/view.py
@@ -195,11 +195,17 @@ def read_spreading_data(*files):
             """Read a Grace formatted file properly."""
 
             def split_graph_data(data):
-                split_data = data.split('@target ')
-                header = split_data[0]
-                graphs = [g.splitlines()[1:] for g in split_data[1:]]
+                """Split the data lines into sets, which end at '&' or '@target'."""
 
-                return header, graphs
+                graphs = [[]]
+                for line in data.splitlines():
+                    line = line.strip()
+                    if line == '&' or line.startswith('@target'):
+                        graphs.append([])
+                    elif line and not line.startswith(('#', '@')):
+                        graphs[-1].append(line)
+
+                return [graph for graph in graphs if graph]
 
             def get_series_data(graph_data):
                 """Parse individual graph line sets for data."""
@@ -217,8 +223,7 @@ def read_spreading_data(*files):
                 num_graph = 0
                 all_series = []
                 for graph in graph_data:
-                    set_data = np.array([get_values(line) for line in graph
-                            if (not line.startswith('@') and line != '&')])
+                    set_data = np.array([get_values(line) for line in graph])
 
                     times = set_data[:,0]
 
@@ -234,9 +239,7 @@ def read_spreading_data(*files):
             with open(filename) as fp:
                 read_data = fp.read()
 
-            # Header might be used later to read comments and legends?
-            header, graph_series = split_graph_data(read_data)
-            series_data = get_series_data(graph_series)
+            series_data = get_series_data(split_graph_data(read_data))
 
             return series_data
 
-- 
2.43.0


From 257bc4f3c15ddc865b6c13434cbb21e4defc5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 44/55] fix: fits of spreading data were not drawn to file
 without showing them

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index 336ec7e..d3f9cd2 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -49,7 +49,7 @@ def fit_spreading_data(files, lims=(None, None), save_xvg=None,
     if save_xvg != None:
         write_fitting_data(save_xvg, fit_data, lims, out_lims)
 
-    if kwargs.get('show', True):
+    if kwargs.get('show', True) or kwargs.get('save_fig') != None:
         plot_fitting_data(fit_data, data, **kwargs)
 
     return fit_params
-- 
2.43.0


From 649205b3d03e71c9a2c710f23149d3a66133bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 45/55] fix: the noaxis option of height maps had no effect

---
 strata/strata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strata/strata.py b/strata/strata.py
index 7be1845..7b565f9 100644
--- a/strata/strata.py
+++ b/strata/strata.py
@@ -912,8 +912,8 @@ def view_heightmap_cli(files, **kwargs):
 
     """
 
-    noaxis = not kwargs.pop('drawaxes')
-    kwargs['noaxis'] = noaxis
+    drawaxes = kwargs.pop('drawaxes')
+    kwargs['noaxis'] = kwargs['noaxis'] or not drawaxes
     view_flowmap_2d(*files, type='height', **kwargs)
 
 
-- 
2.43.0


From 85ef66aa31f293bdab87169f7624fab06190ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 46/55] fix: figure dimensions were not those in pixels of the
 saved figure

---
 strata/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strata/utils.py b/strata/utils.py
index c533794..9890db6 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -342,6 +342,11 @@ def decorate_graph(func):
             return fargs
 
         fargs = pop_figure_kwargs(kwargs)
+
+        # Figure dimensions are given in pixels of the saved figure
+        if 'dims' in kwargs:
+            kwargs['dpi'] = fargs['dpi']
+
         func(*args, **kwargs)
 
         plt.title(fargs['title'])
-- 
2.43.0


From e18c756b673b9b953c26e9a32d2a2878776e8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 47/55] fix: the colour map option had no effect on height
 maps, contours and flow fields

---
 strata/utils.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index 9890db6..0f53350 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -347,7 +347,17 @@ def decorate_graph(func):
         if 'dims' in kwargs:
             kwargs['dpi'] = fargs['dpi']
 
-        func(*args, **kwargs)
+        # The colour map is used by what the function draws, not only by
+        # what is drawn through pyplot, and not by any later figure
+        colormap = {}
+        if fargs['colormap'] != None:
+            try:
+                colormap['image.cmap'] = plt.get_cmap(fargs['colormap']).name
+            except ValueError as err:
+                print(err)
+
+        with plt.rc_context(colormap):
+            func(*args, **kwargs)
 
         plt.title(fargs['title'])
         plt.xlabel(fargs['xlabel'])
@@ -363,12 +373,6 @@ def decorate_graph(func):
         plt.xlim(fargs['xlim'])
         plt.ylim(fargs['ylim'])
 
-        if fargs['colormap'] != None:
-            try:
-                plt.set_cmap(fargs['colormap'])
-            except ValueError as err:
-                print(err)
-
         if fargs['colorbar']:
             from mpl_toolkits.axes_grid1 import make_axes_locatable
 
-- 
2.43.0


From 1f6d0f437724ae2d5fdf4b45dd2d6c4beda84086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:56 +0000
Subject: [PATCH 48/55] fix: drawings added to a figure were cut off at the
 limits of the first

---
 strata/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strata/utils.py b/strata/utils.py
index 0f53350..6d24e3a 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -370,8 +370,10 @@ def decorate_graph(func):
         if fargs['axis']:
             plt.axis(fargs['axis'])
 
-        plt.xlim(fargs['xlim'])
-        plt.ylim(fargs['ylim'])
+        # Without limits the axis has to fit what is drawn later, too
+        for set_limits, lims in ((plt.xlim, fargs['xlim']), (plt.ylim, fargs['ylim'])):
+            if lims != None and any(l != None for l in lims):
+                set_limits(lims)
 
         if fargs['colorbar']:
             from mpl_toolkits.axes_grid1 import make_axes_locatable
-- 
2.43.0


From 51ba12ed1c3855152876e85eeab8e18e07210c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 49/55] fix: legends of fits lost the characters of the file
 name from their parameters

---
 strata/spreading/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strata/spreading/fit.py b/strata/spreading/fit.py
index d3f9cd2..1d01ebc 100644
--- a/strata/spreading/fit.py
+++ b/strata/spreading/fit.py
@@ -171,7 +171,7 @@ def plot_fitting_data(fit_data, data, **kwargs):
     """
 
     for s_fit, s_data in zip(fit_data, data):
-        fit_label = s_fit.name.strip(s_data.name).strip()
+        fit_label = s_fit.name[len(s_data.name):].strip()
         plt.plot(s_data.index, s_data.values, label=s_data.name, **kwargs)
         plt.plot(s_fit.index, s_fit.values, label=fit_label, **kwargs)
 
-- 
2.43.0


From 34bb9455c94ba8dd790ee59eca3b600d4b3b2b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:19 +0000
Subject: [PATCH 50/55] fix: every drawn map left a figure open, with its
 dimensions for later drawings

---
 strata/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strata/utils.py b/strata/utils.py
index 6d24e3a..22239e8 100644
--- a/strata/utils.py
+++ b/strata/utils.py
@@ -356,6 +356,8 @@ def decorate_graph(func):
             except ValueError as err:
                 print(err)
 
+        open_figures = plt.get_fignums()
+
         with plt.rc_context(colormap):
             func(*args, **kwargs)
 
@@ -415,6 +417,10 @@ def decorate_graph(func):
         if fargs['clf']:
             plt.clf()
 
+            # Do not leave behind a figure opened for this drawing
+            if plt.gcf().number not in open_figures:
+                plt.close()
+
         return None
 
     return graph_wrapper
-- 
2.43.0


From b887093482f5b2a1f9187a2ce64452c8912758b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:01 +0000
Subject: [PATCH 51/55] fix: data with coordinates that do not match was
 averaged without an error

---
 droplets/average.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/droplets/average.py b/droplets/average.py
index 2bd692a..7e8a8a9 100644
--- a/droplets/average.py
+++ b/droplets/average.py
@@ -156,6 +156,14 @@ def average_data(data_records, weights=[], coord_labels=('X', 'Y')):
 
     xl, yl = coord_labels
 
+    if len(data_records) == 0:
+        return np.array([])
+
+    try:
+        assert_grids_equal(data_records)
+    except (AssertionError, ValueError):
+        raise ValueError("Input data does not have matching coordinates.")
+
     avg_data = data_records[0].copy()
     data_labels = set(avg_data.dtype.names) - set(coord_labels)
 
-- 
2.43.0


From b190f26553f00b08abe485a16c4120ddfd0e12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:53 +0000
Subject: [PATCH 52/55] fix: values of simple format maps were moved to other
 bins unless ordered along x, then y

---
 strata/dataformats/simple/read.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strata/dataformats/simple/read.py b/strata/dataformats/simple/read.py
index 6dd06c3..17f7770 100644
--- a/strata/dataformats/simple/read.py
+++ b/strata/dataformats/simple/read.py
@@ -55,6 +55,13 @@ def read_data(filename, decimals=5):
 
     xs, ys = np.meshgrid(x, y, indexing='ij')
 
+    # The values belong to the bins at their coordinates, in whatever
+    # order the bins are in the file
+    ix, iy = (np.round((data[l] - v0) / dv) if dv > 0. else np.zeros(len(data[l]))
+              for l, v0, dv in (('X', x0, dx), ('Y', y0, dy)))
+    order = np.lexsort((iy, ix))
+    data = {l: data[l][order] for l in data.keys()}
+
     data['X'] = xs.ravel()
     data['Y'] = ys.ravel()
 
-- 
2.43.0


From d10140a96d0ba243da0bfe274a6a52e688a82067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:30 +0000
Subject: [PATCH 53/55] fix: bins of maps written in the gmx format were moved
 unless ordered along x, then y

---
 strata/dataformats/gmx_flow_version_1/write.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/strata/dataformats/gmx_flow_version_1/write.py b/strata/dataformats/gmx_flow_version_1/write.py
index 4195809..c282f39 100644
--- a/strata/dataformats/gmx_flow_version_1/write.py
+++ b/strata/dataformats/gmx_flow_version_1/write.py
@@ -27,6 +27,11 @@ def write_data(path, data, info, check_label='M'):
 
     nx, ny = info['shape']
 
+    # The bins are stored by their index along x, then y, in whatever
+    # order they are in the input data
+    order = get_order(data, info['spacing'])
+    data = {l: data[l][order] for l in FIELDS_ORDERED + [check_label]}
+
     inds = data[check_label] != 0.0
     num_elements = data[check_label][inds].size
 
@@ -47,6 +52,17 @@ def write_data(path, data, info, check_label='M'):
         for vs in output_data:
             vs.tofile(fp)
 
+def get_order(data, spacing):
+    """Return the order of the bins along x, then y."""
+
+    ix, iy = (
+        np.round((data[l] - np.min(data[l], initial=np.inf)) / dx)
+        if dx > 0. else np.zeros(np.size(data[l]))
+        for l, dx in zip(('X', 'Y'), spacing)
+    )
+
+    return np.lexsort((iy, ix))
+
 def write_header(fp, shape, spacing, origin, num_elements):
     fp.write("FORMAT GMX_FLOW_1\n".encode())
     fp.write("ORIGIN {:12f} {:12f}\n".format(origin[0], origin[1]).encode())
-- 
2.43.0


From e4944ca7d87fbd1b1c927683184ca54877346bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 54/55] fix: maps with a single column could not be recentered

The spacing was taken from the differences between columns, of which there
are none, and no bin was left after the translation.
---
 strata/average.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strata/average.py b/strata/average.py
index f1c5aa2..9edfcb7 100644
--- a/strata/average.py
+++ b/strata/average.py
@@ -217,7 +217,8 @@ def recenter_maps(data_maps, recenter_values):
             # differences, since they are all transformed to an exact
             # common match before the transformation.
             origin = np.min(data['X'])
-            spacing = np.mean(np.diff(np.unique(data['X'])))
+            xs_unique = np.unique(data['X'])
+            spacing = np.mean(np.diff(xs_unique)) if len(xs_unique) > 1 else 1.
             xs_common = np.round((data['X'] - origin)/spacing)
             recenter_common = np.round((recenter - origin)/spacing)
             xs_trans[i] = (xs_common - recenter_common)*spacing + origin
-- 
2.43.0


From 866fb3116843b5ae5ecf76dab5e7ed0c26b26cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:33 +0000
Subject: [PATCH 55/55] fix: interface collection failed on or misplaced layers
 around one without an interface

---
 strata/interface/collect.py | 39 +++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/strata/interface/collect.py b/strata/interface/collect.py
index 572a3fc..648da95 100644
--- a/strata/interface/collect.py
+++ b/strata/interface/collect.py
@@ -140,20 +140,22 @@ YIndexData = namedtuple("YIndexData", ["ymin", "ymax", "dy", "num"])
 def get_yindex_data(ys, dy=None):
     """Return the `YIndexData` corresponding to the input valuesself.
 
-    Note that this assumes that all the values in the input array are
-    evenly spaced. The spacing `dy` is only used for a single value, for
-    which it cannot be calculated.
+    The values are multiples of the spacing `dy` apart, which if not given
+    is taken to be that between the closest values. Multiples which are
+    missing between the values are counted.
 
     """
 
-    if ys.size > 1 or dy is None:
+    if dy is None:
         dy = np.unique(np.diff(ys))[0]
 
+    ymin, ymax = np.min(ys), np.max(ys)
+
     return YIndexData(
-        ymin=np.min(ys),
-        ymax=np.max(ys),
+        ymin=ymin,
+        ymax=ymax,
         dy=dy,
-        num=ys.size,
+        num=int(round((ymax - ymin) / dy)) + 1,
     )
 
 def get_yindex_for_value(y, yindex_data):
@@ -164,8 +166,8 @@ def get_yindex_for_value(y, yindex_data):
     """
 
     y = min(max(y, yindex_data.ymin), yindex_data.ymax)
-    # Allow for floating point noise in exact multiples of the spacing
-    return int((y - yindex_data.ymin) / yindex_data.dy + 1e-6)
+    # Allow for the precision of coordinates in multiples of the spacing
+    return int((y - yindex_data.ymin) / yindex_data.dy + 1e-3)
 
 def transfer_values(xs, yindex_data, yindex_data_new):
     """Transfer data from an array to one with a new indexing.
@@ -281,10 +283,13 @@ def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
     )
     new_pbc_info_per_y = fill_pbc_info_for_empty_y_values(new_pbc_info_per_y)
 
-    for i, (y, xl, xr) in enumerate(zip(ys, xs_left, xs_right)):
+    # Layers without an interface may lie in between
+    inds = [get_yindex_for_value(y, new_yindex_data) for y in ys]
+
+    for n, (i, xl, xr) in enumerate(zip(inds, xs_left, xs_right)):
         # In the first map, adjust each layer to the one below
-        if old_yindex_data == None and i > 0:
-            pbc_info = new_pbc_info_per_y[i - 1]
+        if old_yindex_data == None and n > 0:
+            pbc_info = new_pbc_info_per_y[inds[n - 1]]
         else:
             pbc_info = new_pbc_info_per_y[i]
 
@@ -297,12 +302,16 @@ def update_interface_with_pbc_info(ys, xs_left, xs_right, box_x,
 
         new_pbc_info_per_y[i] = new_pbc_info
 
+    # Those follow the layer below them
+    for below, above in zip(inds, inds[1:]):
+        for i in range(below + 1, above):
+            new_pbc_info_per_y[i] = new_pbc_info_per_y[below]
+
     final_xs_left = np.zeros(xs_left.shape)
     final_xs_right = np.zeros(xs_right.shape)
 
-    for i, (xl, xr, pbc_info) in enumerate(zip(
-                xs_left, xs_right, new_pbc_info_per_y
-            )):
+    for i, (xl, xr, ind) in enumerate(zip(xs_left, xs_right, inds)):
+        pbc_info = new_pbc_info_per_y[ind]
         xleft, xright = add_pbc_multipliers_to_edges(pbc_info, box_x, xl, xr)
         final_xs_left[i] = xleft
         final_xs_right[i] = xright
-- 
2.43.0

