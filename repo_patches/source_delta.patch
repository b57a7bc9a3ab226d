From fdf05a8833f4b104831335363c082e1e46e6963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 01/25] fix: reference delay times were cached per phase,
 ignoring the reference slowness

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..5718cd0 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[(phase, ref)]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[(phase, ref)] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From 5fa465e4ec20791dba248aa78761258ab049ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 02/25] fix: restore station codes and obspyh5 index if writing
 fails

---
 rf/rfstream.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..c5c5720 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -194,24 +194,27 @@ class RFStream(Stream):
         """
         if len(self) == 0:
             return
-        for tr in self:
-            tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
-        if format.upper() == 'H5':
-            index = self.type
-            if index is None and 'event_time' in self[0].stats:
-                index = 'rf'
-            if index:
-                import obspyh5
-                old_index = obspyh5._INDEX
-                obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
+        old_index = None
+        stations = [tr.stats.station for tr in self]
+        try:
             for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+                tr._write_format_specific_header(format, sh_compat=sh_compat)
+                if format.upper() == 'Q':
+                    tr.stats.station = tr.id
+            if format.upper() == 'H5':
+                index = self.type
+                if index is None and 'event_time' in self[0].stats:
+                    index = 'rf'
+                if index:
+                    import obspyh5
+                    old_index = obspyh5._INDEX
+                    obspyh5.set_index(_H5INDEX[index])
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            if old_index is not None:
+                obspyh5.set_index(old_index)
+            for tr, station in zip(self, stations):
+                tr.stats.station = station
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From cfbcff321b150e3fcb9f6c6154fbeee2f8b0d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 03/25] fix: harmonic streams could not be written to H5 (no
 index for this type)

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index c5c5720..5bed305 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -205,7 +205,7 @@ class RFStream(Stream):
                 index = self.type
                 if index is None and 'event_time' in self[0].stats:
                     index = 'rf'
-                if index:
+                if index in _H5INDEX:
                     import obspyh5
                     old_index = obspyh5._INDEX
                     obspyh5.set_index(_H5INDEX[index])
-- 
2.43.0


From fc46a343527a534faa85847f08628b356aa26801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 04/25] fix: do not convert existing time headers if SAC field
 is undefined

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 5bed305..5df4478 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -553,7 +553,7 @@ class RFTrace(Trace):
                 continue
             else:
                 if format == 'sac' and '-12345' in str(value):
-                    pass
+                    continue
                 elif format == 'sh' and head_format == 'COMMENT':
                     try:
                         st.update(json.loads(value))
-- 
2.43.0


From b31cfdc533503fae64f9b0f7b913ec4d2f4ae472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 05/25] fix: RFStream.rf accepted '' and 'PS' as method

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 5df4478..475c347 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -312,7 +312,7 @@ class RFStream(Stream):
 
         if method is None:
             method = self.method
-        if method is None or method not in 'PS':
+        if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
         if source_components is None:
-- 
2.43.0


From 40af406b515a0113625e6dcab6d5ad58f1f43508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 06/25] fix: rfstats used the S distance range for phase 'PS'

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 475c347..f82eb99 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -698,7 +698,7 @@ def rfstats(obj=None, event=None, station=None,
                 traces.append(tr)
         stream.traces = traces
         return stream
-    if dist_range == 'default' and phase.upper() in 'PS':
+    if dist_range == 'default' and phase.upper() in ('P', 'S'):
         dist_range = (30, 90) if phase.upper() == 'P' else (50, 85)
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
-- 
2.43.0


From 0e730300161a6a9c7c03cd960b190303c20c531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 07/25] fix: allow float for downsample option of RFStream.rf

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index f82eb99..b4c7f0a 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -324,7 +324,7 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    tr.decimate(int(tr.stats.sampling_rate // downsample))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From 219585d64cb8c4709ef595b662fcf48ce7ae527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 08/25] fix: stack used metadata of first trace for all seed
 ids and returned traces in arbitrary order

---
 rf/rfstream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index b4c7f0a..af0ca9b 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -412,10 +412,11 @@ class RFStream(Stream):
         Each trace in the returned stream will correspond to one unique seed
         id.
         """
-        ids = set(tr.id for tr in self)
-        tr = self[0]
+        first = {}
+        for tr in self:
+            first.setdefault(tr.id, tr)
         traces = []
-        for id in ids:
+        for id, tr in first.items():
             net, sta, loc, cha = id.split('.')
             data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
-- 
2.43.0


From 3a411697a46e02a904bf91c29ba469e7da5c5df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 09/25] fix: stack shared the processing list with the original
 stream

---
 rf/rfstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index af0ca9b..19f08bf 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import copy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -425,7 +426,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 5704be5dc673d9eae60118b27a2bcd7c74857861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 10/25] fix: profile shared the processing list with the
 original stream

---
 rf/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..3488c5d 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import copy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +107,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From dc80c3acd3d24388d7542b2b7881792556732e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 11/25] fix: restore sys.path if import of plugin fails

---
 rf/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..b9c3f56 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -126,8 +126,10 @@ def _iter_profile(pin, format):
 def load_func(modulename, funcname):
     """Load and return function from Python module."""
     sys.path.append(os.path.curdir)
-    module = import_module(modulename)
-    sys.path.pop(-1)
+    try:
+        module = import_module(modulename)
+    finally:
+        sys.path.pop(-1)
     func = getattr(module, funcname)
     return func
 
-- 
2.43.0


From 59677f236b2b895e391c316bafff8024cb0e6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 12/25] fix: detect duplicate commands after data and calc

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index b9c3f56..457f53c 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -257,7 +257,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
+        if command == 'data':
             assert len(commands) < 3
             if len(commands) == 2:
                 assert commands[0] != commands[1]
-- 
2.43.0


From d82a2b79d3d870853006a1622f5574969974d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 13/25] fix: run_commands could not be called with Catalog
 object

---
 rf/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 457f53c..78f9952 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -271,8 +271,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
+            if (not isinstance(events, (obspy.Catalog, list)) or
                     (len(events) == 2 and isinstance(events[0], basestring))):
                 if isinstance(events, basestring):
                     format_ = None
-- 
2.43.0


From 3d06b045d0487378b51af5ee576147e980ec8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 14/25] fix: event without origin aborted iter_event_data

---
 rf/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..b7e3714 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -60,8 +60,9 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
     for event, seedid in itertools.product(events, stations):
         if pbar is not None:
             pbar.update(1)
-        origin_time = (event.preferred_origin() or event.origins[0])['time']
         try:
+            origin = event.preferred_origin() or event.origins[0]
+            origin_time = origin['time']
             args = (seedid[:-1] + stations[seedid], origin_time)
             coords = inventory.get_coordinates(*args)
         except Exception:  # station not available at that time
-- 
2.43.0


From 057c0f353b752c689c23f9b36eb1a06b36a62861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 15/25] fix: batch data retrieval aborted if data for a single
 request was not available

---
 rf/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/util.py b/rf/util.py
index b7e3714..6ae3aee 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -86,6 +86,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             stream = get_waveforms(**kws)
         except Exception:  # no data available
             continue
+        if stream is None:  # error was already reported by get_waveforms
+            continue
         stream.trim(starttime, endtime)
         stream.merge()
         if len(stream) != 3:
-- 
2.43.0


From f5f2ce9c4beb8cef54c8b2cfd47b6168c08bd1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 16/25] fix: deconv_waterlevel failed for single array or
 return_info if normalize is None

---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..05017a8 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,7 +229,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
             norm = 1 / max(rf_src)
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From 131fd7756517bac8958abb63d45a946ffa657f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 17/25] fix: deconv_iterative failed for single array

---
 rf/deconvolve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 05017a8..73cd6b7 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -466,6 +466,9 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
+    flag = not isinstance(rsp, (list, tuple))
+    if flag:
+        rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
     RF_out = []
@@ -518,6 +521,8 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
         for RF in RF_out:
             RF *= norm
 
+    if flag:
+        return RF_out[0], it_out[0], rms_out[0]
     return RF_out, it_out, rms_out
 
 
-- 
2.43.0


From d2bf446103ead7d88cb2bb15eee7687264c503b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 18/25] fix: components entry was only set for last trace of
 unmodeled harmonics

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From f1333ca27f3ff1bcb34427b3f665a5a69b999d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 19/25] fix: plot_rf failed for show_traces=False,
 show_vlines=True

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..a319b1a 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -136,6 +136,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
                 for l in ax.get_xticklabels():
                     l.set_fontsize('small')
             ax.xaxis.set_minor_locator(AutoMinorLocator())
+    aligner_color = "#a0a0a080"
     if show_traces:
         # set x and y limits
         ax1.set_xlim(*xlim)
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
-- 
2.43.0


From 6da174e5f621621b44310f7c1482b1a299c4a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 20/25] fix: scale second panel of plot_harmonics with maximum
 of hd2

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index a319b1a..493394c 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -418,7 +418,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From b37d3fb341dfc43e54476badda9d59f13c167734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 21/25] fix: histogram bars were not aligned with boxes in
 plot_profile

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 493394c..0e9a54d 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -362,7 +362,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, align='edge', color='cadetblue')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
-- 
2.43.0


From 26022425977d68b0df9c7b4d04365f44caa7e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 22/25] fix: failing record of arguments does not hide the
 result of an operation

---
 rf/util.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 6ae3aee..30c0803 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -225,8 +225,7 @@ def minimal_example_Srf():
     return stream.copy()
 
 
-@decorator
-def _add_processing_info(_func_, *args, **kwargs):
+def _processing_info(_func_, args, kwargs):
     from rf import __version__
     args_ = inspect.getcallargs(_func_, *args, **kwargs)
     if args_.pop('self', None) is None:
@@ -243,7 +242,18 @@ def _add_processing_info(_func_, *args, **kwargs):
     arguments = ['%s=%s' % (k, repr(v)) if not isinstance(v, str) else
                  "%s='%s'" % (k, v) for k, v in kw.items()]
     info = info % '::'.join(sorted(arguments))
+    return info
+
+
+@decorator
+def _add_processing_info(_func_, *args, **kwargs):
+    try:
+        info = _processing_info(_func_, args, kwargs)
+    except Exception:  # the operation itself reports wrong arguments
+        info = None
     stream = _func_(*args, **kwargs)
+    if info is None:
+        return stream
     try:
         for tr in stream:
             tr._internal_add_processing_info(info)
-- 
2.43.0


From 8d694746c7ad3f26741489afa11d79b14d91bf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 23/25] fix: plot_stations does not depend on the iteration
 order of a set

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 0e9a54d..f942503 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -216,7 +216,7 @@ def plot_stations(inventory, label_stations=True, ax=None, crs=None, **kwargs):
         # assume inventory to be stream
         data = [((tr.stats.station_latitude, tr.stats.station_longitude),
                  tr.stats.station) for tr in inventory]
-        latlons, names = zip(*list(set(data)))
+        latlons, names = zip(*sorted(set(data)))
     except AttributeError:
         # inventory is Inventory
         latlons, names = zip(*[((sta.latitude, sta.longitude), sta.code)
-- 
2.43.0


From 604ea0f908ea7626af4f7f24e9dbbf77b1276130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:55 +0000
Subject: [PATCH 24/25] fix: template configuration suggested an unknown option
 "water"

---
 rf/example/conf.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/example/conf.json b/rf/example/conf.json
index 2d61503..5a4f409 100644
--- a/rf/example/conf.json
+++ b/rf/example/conf.json
@@ -77,7 +77,7 @@
     # time domain deconvolution options
 #    "spiking": 1.0,  # spiking factor for noise suppression
     # frequency domain deconvolution options
-#    "water": 0.05,  # water level for noise suppression
+#    "waterlevel": 0.05,  # water level for noise suppression
 #    "gauss": 2.0,  # low pass Gauss filter with corner frequency in Hz
     # window for source function relative to onset, (start, end, tapering)
 #    "winsrc": [-10, 30, 5]
-- 
2.43.0


From aff376722a7da3522164f217d56bbe98d2c7dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 25/25] Revert conf.json change: example files stay as they are

---
 rf/example/conf.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/example/conf.json b/rf/example/conf.json
index 5a4f409..2d61503 100644
--- a/rf/example/conf.json
+++ b/rf/example/conf.json
@@ -77,7 +77,7 @@
     # time domain deconvolution options
 #    "spiking": 1.0,  # spiking factor for noise suppression
     # frequency domain deconvolution options
-#    "waterlevel": 0.05,  # water level for noise suppression
+#    "water": 0.05,  # water level for noise suppression
 #    "gauss": 2.0,  # low pass Gauss filter with corner frequency in Hz
     # window for source function relative to onset, (start, end, tapering)
 #    "winsrc": [-10, 30, 5]
-- 
2.43.0

