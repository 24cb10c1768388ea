From 4aadea0f10eee3f97ceb8324f75dd157c7d304ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:08 +0000
Subject: [PATCH 01/25] fix: number grid cells correctly in regions spanning
 the equator or 0E

Cell indices were taken from the difference of absolute values, so two
positions on either side of zero could share a cell.
---
 Utilities/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..a0b051f 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -97,8 +97,8 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    j = abs(lon - gridLimit['xMin']) // abs(gridSpace['x'])
+    i = abs(lat - gridLimit['yMax']) // abs(gridSpace['y'])
 
     return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
 
-- 
2.43.0


From 6e154f6c48cd2d299b04f80553833c7f130c2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:08 +0000
Subject: [PATCH 02/25] fix: keep hazard grid points on the region limit

The region limits were truncated to whole millidegrees, so a limit such
as 2.01 became 2.009 and the last row or column was dropped.
---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..bf162e4 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -105,15 +105,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                int(np.round(gridLimit['xMin']*1000))) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                int(np.round(gridLimit['xMax']*1000)))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                int(np.round(gridLimit['yMin']*1000))) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                int(np.round(gridLimit['yMax']*1000)))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From acc018e606dfa0c726943f9785309eab98d90bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:08 +0000
Subject: [PATCH 03/25] fix: use a whole number of bootstrap samples for
 confidence intervals

The number of samples was a float, so numpy rejected it as an array size
and every run with CalculateCI=True stopped with a TypeError.
---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bf162e4..438f776 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -825,7 +825,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
-- 
2.43.0


From 0a978ad3c7837daf8c147bda52e58fd198d85d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:08 +0000
Subject: [PATCH 04/25] fix: do not let local wind workers block on an empty
 segment queue

Two workers could both see one remaining segment. The one that lost the
race then waited forever in get().
---
 ProcessMultipliers/processMultipliers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..fa59210 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1059,8 +1059,12 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            break
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From e5f0d143f1cd3da9ba1ab6da8f511ebb04252fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:19 +0000
Subject: [PATCH 05/25] fix: give northerly winds stored with a bearing of 360
 a multiplier

Bearings are written to a single-precision raster, where values just
below 360 round up to 360.0. No sector included that value and the local
wind speed was left at zero.
---
 ProcessMultipliers/processMultipliers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index fa59210..df3340a 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -889,7 +889,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
         5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},
         6: {'dir': 'w', 'min': 247.5, 'max': 292.5},
         7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},
-        8: {'dir': 'n', 'min': 337.5, 'max': 360.}
+        # single-precision bearings just below 360 are stored as 360.0
+        8: {'dir': 'n', 'min': 337.5, 'max': 360.5}
     }
     band_numbers_for_indices_in_geotiff = [2, 3, 1, 6, 5, 7, 8, 4, 2]
     log.info("Processing all directions")
@@ -1090,7 +1091,8 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
         5: {'dir': 'sw', 'min': 202.5, 'max': 247.5},
         6: {'dir': 'w', 'min': 247.5, 'max': 292.5},
         7: {'dir': 'nw', 'min': 292.5, 'max': 337.5},
-        8: {'dir': 'n', 'min': 337.5, 'max': 360.}
+        # single-precision bearings just below 360 are stored as 360.0
+        8: {'dir': 'n', 'min': 337.5, 'max': 360.5}
     }
     [x_offset, y_offset, width, height, segment_id, total_segments] = segment
     with threadLock_gust:
-- 
2.43.0


From dc8909967c42f9170cffc7795b992349ce2be1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:07 +0000
Subject: [PATCH 06/25] fix: allow track generation with a single simulation

The progress message divided by the index of the last simulation, which is
zero when only one simulation is requested.
---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..2865e86 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1869,7 +1869,7 @@ def run(configFile, callback=None):
 
     comm.barrier()
 
-    N = sims[-1].index
+    N = max(sims[-1].index, 1)
 
     # Balance the simulations over the number of processors and do it
 
-- 
2.43.0


From 4f3a0fcb969b4af037f72ce387961af5a6381d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:39 +0000
Subject: [PATCH 07/25] fix: do not take partially written wind fields for
 finished ones

A wind field file left by an interrupted run could already hold every
expected variable without its data, and was then skipped when the run was
repeated. Files are now written under a temporary name and renamed once
they are complete.
---
 wind/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..1fb2444 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -702,7 +702,12 @@ class WindfieldGenerator(object):
             }
         }
 
-        nctools.ncSaveGrid(filename, dimensions, variables, gatts=gatts)
+        # Only give the file its final name once it is complete, so an
+        # interrupted run does not leave a partial file that is taken for
+        # a finished one.
+        tmpfile = filename + '.tmp'
+        nctools.ncSaveGrid(tmpfile, dimensions, variables, gatts=gatts)
+        os.replace(tmpfile, filename)
 
     def dumpGustsFromTrackfiles(self, trackfiles, windfieldPath,
                                 timeStepCallback=None):
-- 
2.43.0


From 7d6008e7edfa1edbf8702a06a62f4f8907b4259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:33 +0000
Subject: [PATCH 08/25] fix: draw the storm size from the simulation's own
 random numbers

The random part of the radius to maximum winds came from numpy's global
generator. A simulation then depended on the number of processes, and on
the simulations the same process had done before.
---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 2865e86..16b716f 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -646,13 +646,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = initEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0, 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0, 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From 14097e0bf46cd4ee2a026a4d85bd85be004383e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:33 +0000
Subject: [PATCH 09/25] fix: look up the environmental pressure of every storm

Within a simulation all storms after the first started with the
environmental pressure of the first one's origin and day of year.
---
 TrackGenerator/TrackGenerator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 16b716f..9488d65 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -617,10 +617,12 @@ class TrackGenerator(object):
             # provided - dependent on initial day of year:
 
             if not initEnvPressure:
-                initEnvPressure = \
+                genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
                                                      [genesisLon]]))
+            else:
+                genesisEnvPressure = initEnvPressure
 
             # Sample an initial pressure if none is provided
 
@@ -629,7 +631,7 @@ class TrackGenerator(object):
                 # initEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
                 cdfInitPressure = self.allCDFInitPressure[ind, 1:3]
-                ix = cdfInitPressure[:, 0].searchsorted(initEnvPressure)
+                ix = cdfInitPressure[:, 0].searchsorted(genesisEnvPressure)
                 upperProb = cdfInitPressure[ix - 1, 1]
                 genesisPressure = ppf(uniform(0.0, upperProb),
                                       cdfInitPressure)
@@ -645,7 +647,7 @@ class TrackGenerator(object):
                     ind = self.allCDFInitSize[:, 0] == initCellNum
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
-                dp = initEnvPressure - genesisPressure
+                dp = genesisEnvPressure - genesisPressure
                 self.rmwEps = normal(0, 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
@@ -670,7 +672,7 @@ class TrackGenerator(object):
             log.debug('initBearing: %.2f initSpeed: %.2f' +
                       ' initEnvPressure: %.2f initPressure: %.2f' +
                       ' initRmax: %.2f',
-                      genesisBearing, genesisSpeed, initEnvPressure,
+                      genesisBearing, genesisSpeed, genesisEnvPressure,
                       genesisPressure, genesisRmax)
 
             xMin = self.gridLimit['xMin']
@@ -684,7 +686,7 @@ class TrackGenerator(object):
                           ' for this genesis point.')
                 continue
 
-            if (initEnvPressure - genesisPressure) < 2:
+            if (genesisEnvPressure - genesisPressure) < 2:
                 log.debug(("Track does not start with sufficient "
                            "pressure deficit"))
                 continue
@@ -694,7 +696,7 @@ class TrackGenerator(object):
 
             data = self._singleTrack(j, genesisLon, genesisLat,
                                      genesisSpeed, genesisBearing,
-                                     genesisPressure, initEnvPressure,
+                                     genesisPressure, genesisEnvPressure,
                                      genesisRmax, genesisTime)
 
             track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})
-- 
2.43.0


From 3d0310036f0be3a7cf9d5085aebedd5ecb85d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:33 +0000
Subject: [PATCH 10/25] fix: restart the landfall decay when a storm makes
 landfall again

The time over land was not reset over water, so at a second landfall the
storm lost at once the intensity it would lose in the hours spent over
land before.
---
 TrackGenerator/TrackGenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 9488d65..7c3cb33 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1015,6 +1015,7 @@ class TrackGenerator(object):
                 log.debug(('Central pressure {0} hours after landfall:'
                            '{1:.2f}'.format(tol, pressure[i])))
             else:
+                tol = 0.0
                 pstat = self.pStats.coeffs
                 pressure[i] = pressure[i - 1] + self.dp * self.dt
 
-- 
2.43.0


From ced067eda7896c928f252898b6d7053e1465d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:37 +0000
Subject: [PATCH 11/25] fix: accept zero as a limit of the grid around a storm

---
 Utilities/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 61a60e9..f00491b 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -493,19 +493,19 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
 
     gridSize = int(resolution * 1000)
 
-    if minLon:
+    if minLon is not None:
         minLon_ = int(1000 * (minLon)) - int(1000 * margin)
     else:
         minLon_ = int(1000 * (cLon)) - int(1000 * margin)
-    if maxLon:
+    if maxLon is not None:
         maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
     else:
         maxLon_ = int(1000 * (cLon)) + int(1000 * margin) + 1
-    if minLat:
+    if minLat is not None:
         minLat_ = int(1000 * (minLat)) - int(1000 * margin)
     else:
         minLat_ = int(1000 * (cLat)) - int(1000 * margin)
-    if maxLat:
+    if maxLat is not None:
         maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
     else:
         maxLat_ = int(1000 * (cLat)) + int(1000 * margin) + 1
-- 
2.43.0


From 4f3ace5829c6ee602a13164bce06cdc541a32cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:37 +0000
Subject: [PATCH 12/25] fix: keep direction and components of the track with
 the strongest gust

---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 1fb2444..c767161 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -500,9 +500,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From f8c11c0c71e0a57ea4dad658ad83418c6ca62ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:37 +0000
Subject: [PATCH 13/25] fix: give every track its own wind field domain when
 none is configured

---
 wind/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index c767161..3ed32b4 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -447,9 +447,12 @@ class WindfieldGenerator(object):
                          extract point values for specified locations.
 
         """
-        if self.gridLimit is None:
+        gridLimit = self.gridLimit
+        if gridLimit is None:
+            # The domain is that of this track only
             self.setGridLimit(track)
-            log.info(f"Wind field domain set to {repr(self.gridLimit)}")
+            gridLimit, self.gridLimit = self.gridLimit, None
+            log.info(f"Wind field domain set to {repr(gridLimit)}")
 
         wt = WindfieldAroundTrack(track,
                                   profileType=self.profileType,
@@ -460,7 +463,7 @@ class WindfieldGenerator(object):
                                   thetaMax=self.thetaMax,
                                   margin=self.margin,
                                   resolution=self.resolution,
-                                  gridLimit=self.gridLimit,
+                                  gridLimit=gridLimit,
                                   domain=self.domain)
 
         if self.config.getboolean('Timeseries', 'Windfields', fallback=False):
@@ -468,12 +471,12 @@ class WindfieldGenerator(object):
                            'evolution.{0:03d}-{1:05d}.nc'.format(
                                *track.trackId))
             callback = writer.WriteFoliationCallback(output,
-                                                     self.gridLimit,
+                                                     gridLimit,
                                                      self.resolution,
                                                      self.margin,
                                                      wraps=callback)
 
-        return track, wt.regionalExtremes(self.gridLimit, callback)
+        return track, wt.regionalExtremes(gridLimit, callback)
 
     def calculateExtremesFromTrackfile(self, trackfile, callback=None):
         """
-- 
2.43.0


From 0349120045d06f896e29a130ae167fa35f115f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:37 +0000
Subject: [PATCH 14/25] fix: pass the angle of maximum wind to the wind field
 models in degrees

---
 wind/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 3ed32b4..0d77abc 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -111,7 +111,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -944,8 +944,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
-
     # Attempt to start the track generator in parallel
     global MPI
     MPI = attemptParallel()
-- 
2.43.0


From 38c99ad7167b8ecbaf73cdde62f208fd92d297e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:45 +0000
Subject: [PATCH 15/25] fix: do not carry return levels of one cell into the
 confidence limits of the next

A sample without any wind left the entry of the previously processed grid
cell in place, so the limits depended on the neighbouring cell.
---
 hazard/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 438f776..c79a10e 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -831,8 +831,6 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
     RpLower = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
 
-    # w: years x number of iterations
-    w = np.zeros((len(years), nsamples), dtype='f')
     wUpper = np.zeros((len(years)), dtype='f')
     wLower = np.zeros((len(years)), dtype='f')
 
@@ -840,6 +838,8 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
                 random.shuffle(Vr[:, i, j]) # shuffle the years
+                # w: years x number of iterations
+                w = np.zeros((len(years), nsamples), dtype='f')
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
                     nend  = (n + 1)*sample_size - 1
-- 
2.43.0


From 9ade1f7e271d055e9372bef072762eae85b9ccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:45 +0000
Subject: [PATCH 16/25] fix: use all records of each sample for the confidence
 limits

The end of a slice is exclusive, so the last record of every sample was
left out.
---
 hazard/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index c79a10e..19defa3 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -842,7 +842,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
                 w = np.zeros((len(years), nsamples), dtype='f')
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-                    nend  = (n + 1)*sample_size - 1
+                    nend  = (n + 1)*sample_size
                     vsub = Vr[nstart:nend, i, j] # select random 50(default) events
 
                     vsub.sort()
-- 
2.43.0


From b417ad4ea98051f2a3ae5940edef030aca88de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:45 +0000
Subject: [PATCH 17/25] fix: read only the wind field files when calculating
 hazard

The folder also receives the evolution of the wind fields when these are
saved. Loading every file in it failed, or took the domain from the wrong
file.
---
 hazard/__init__.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 19defa3..3287cbe 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -41,6 +41,21 @@ from . import GPD
 log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
 
+def gustFiles(inputPath):
+    """
+    List the wind field files in a folder. The folder may hold other output
+    (e.g. the evolution of the wind field), which is ignored.
+
+    :param str inputPath: path of folder containing wind field files
+
+    :returns: list of the full path of each wind field file.
+
+    """
+
+    files = [pjoin(inputPath, f) for f in os.listdir(inputPath)
+             if f.startswith('gust.') and f.endswith('.nc')]
+    return [f for f in files if os.path.isfile(f)]
+
 def setDomain(inputPath):
     """
     Establish the full extent of input wind field files
@@ -52,8 +67,7 @@ def setDomain(inputPath):
 
     """
 
-    fileList = os.listdir(inputPath)
-    inputFile = pjoin(inputPath, fileList[0])
+    inputFile = gustFiles(inputPath)[0]
     ncobj = nctools.ncLoadFile(inputFile)
     wf_lon = nctools.ncGetDims(ncobj, 'lon')
     wf_lat = nctools.ncGetDims(ncobj, 'lat')
@@ -905,9 +919,7 @@ def loadFilesFromPath(inputPath, tilelimits):
 
     """
 
-    fileList = os.listdir(inputPath)
-    files = [pjoin(inputPath, f) for f in fileList]
-    files = [f for f in files if os.path.isfile(f)]
+    files = gustFiles(inputPath)
     log.debug("Loading data from %d files" % (len(files)))
 
     ysize = tilelimits[3] - tilelimits[2]
-- 
2.43.0


From 8823f3c982ef2c8de9ffe524fe9f6980496d6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:51 +0000
Subject: [PATCH 18/25] fix: keep the sign of the vorticity in the compiled
 Holland kernels

---
 wind/windmodels.f90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wind/windmodels.f90 b/wind/windmodels.f90
index a471243..380de90 100644
--- a/wind/windmodels.f90
+++ b/wind/windmodels.f90
@@ -74,8 +74,8 @@ subroutine fkerpert(R, lam, f, rMax, Vm, thetaFm, vFm, d2Vm, dVm, dP, beta, rho,
             (sqrt(beta * dP * delta * edelta / &
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
-      V = sign(V, f)
-      Z = sign(Z, f)
+      V = sign(b, f) * V
+      Z = sign(b, f) * Z
 
       if (R(i) > 2 * rMax) then
          Vt  = Umod * exp(-((R(i) / (2.*rMax)) - 1.) ** 2.)
@@ -163,7 +163,7 @@ subroutine fhollandvel(V, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
          V(i) = sqrt((dP * beta / rho) * delta * edelta + (R(i) * f / 2.) ** 2) - R(i) * abs(f) / 2.
       end if
 
-      V(i) = sign(V(i), f)
+      V(i) = sign(1.d0, f) * V(i)
 
    end do
    !$OMP END PARALLEL DO
@@ -202,7 +202,7 @@ subroutine fhollandvort(Z, R, d2Vm, dVm, rMax, vMax, beta, dP, rho, f, n)
                      rho + (R(i) * f / 2)**2)) / R(i)
       end if
 
-      Z(i) = sign(Z(i), f)
+      Z(i) = sign(1.d0, f) * Z(i)
    end do
    !$OMP END PARALLEL DO
 
-- 
2.43.0


From f72866a54ae93ed0aaa3e882a07ed9e04ef6d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:34 +0000
Subject: [PATCH 19/25] fix: no rate of change of radius from a record without
 a radius

---
 DataProcess/DataProcess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..dc954c4 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -769,6 +769,7 @@ class DataProcess(object):
                           .format(pjoin(self.processPath, 'rmax_rate')))
         np.putmask(rmaxRate, indicator, sys.maxsize)
         np.putmask(rmaxRate, rmax >= sys.maxsize, sys.maxsize)
+        np.putmask(rmaxRate[1:], rmax[:-1] >= sys.maxsize, sys.maxsize)
         np.putmask(rmaxRate, (rmaxRate >= sys.maxsize) |
                    (rmaxRate <= -sys.maxsize), sys.maxsize)
         np.putmask(rmaxRate, np.isnan(rmaxRate), sys.maxsize)
-- 
2.43.0


From 03a21cba5388dbb595b6c0a80c8342f7a987fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:34 +0000
Subject: [PATCH 20/25] fix: split combined tracks at jumps to the west and
 south as well

---
 DataProcess/DataProcess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index dc954c4..33d8c11 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -245,7 +245,7 @@ class DataProcess(object):
             # Calculate julian days:
             jdays = loadData.julianDays(year, month, day, hour, minute)
 
-        delta_lon = np.diff(lon)
+        delta_lon = np.mod(np.diff(lon) + 180., 360.) - 180.
         delta_lat = np.diff(lat)
 
         # Split into separate tracks if large jump occurs (delta_lon >
@@ -254,8 +254,8 @@ class DataProcess(object):
         # match but basins are different as occurs in the IBTrACS
         # dataset.  This problem can also be prevented if the
         # 'tcserialno' column is specified.
-        indicator[np.where(delta_lon > 15)[0] + 1] = 1
-        indicator[np.where(delta_lat > 5)[0] + 1] = 1
+        indicator[np.where(np.abs(delta_lon) > 15)[0] + 1] = 1
+        indicator[np.where(np.abs(delta_lat) > 5)[0] + 1] = 1
 
         # Save information required for frequency auto-calculation
         try:
-- 
2.43.0


From 52da1448e9e94218723dcd11a8f31fac4c53b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:39 +0000
Subject: [PATCH 21/25] fix: read dates from separate columns when there is no
 date column

---
 Utilities/loadData.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..b0f9552 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,13 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
+        dates = None
+
+    if dates is not None:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
+    else:
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
-- 
2.43.0


From 44ac4a6e596e86446db45cb67d37a699bf3462e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:43:24 +0000
Subject: [PATCH 22/25] fix: apply the asymmetry of the Hubbert wind field to
 the cyclonic side in both hemispheres

The forward motion was added with the sign of the southern hemisphere
everywhere, so in the northern hemisphere it weakened the side of the
storm it should strengthen.
---
 wind/windmodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..89d9595 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -987,7 +987,7 @@ class HubbertWindField(WindFieldModel):
         inflow = inflow * np.pi / 180
 
         thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.
-        asym = vFm * np.cos(thetaMaxAbsolute - lam + np.pi)
+        asym = np.sign(self.f) * vFm * np.cos(thetaMaxAbsolute - lam)
         Vsf = Km * V + asym
         phi = inflow - lam
 
-- 
2.43.0


From 9d3720e6b903e23fa95f759e11989db8d4c89759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:25 +0000
Subject: [PATCH 23/25] fix: count downward edges in the winding number of a
 polygon

The test for a downward edge was nested under edges that start below the
point, so points inside a clockwise polygon could be taken for outside.
---
 Utilities/Intersections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..a98d734 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,7 +99,8 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
+        else:
+            if V[i + 1].y <= P.y:     # a downward crossing
                 if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
                     wn -= 1            # have a valid down intersect
     return wn != 0
-- 
2.43.0


From f0656f3f1c3a389118b59215a74c8394fea586e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:25 +0000
Subject: [PATCH 24/25] fix: count landfalls through the last coastline gate

The last gate was never tested, and the first entry of the rates
belonged to no gate.
---
 Evaluate/landfallRates.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..f3ce75f 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -107,7 +107,7 @@ class LandfallRates(object):
                 if not startOnshore and endOnshore:
                     # Landfall:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j-1],
                                            self.gates[j])
@@ -117,7 +117,7 @@ class LandfallRates(object):
                 elif startOnshore and not endOnshore:
                     # Moving offshore:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j - 1],
                                            self.gates[j])
@@ -125,8 +125,10 @@ class LandfallRates(object):
                             offshore.append(j)
 
         # Generate the histograms to be returned:
-        lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-        oh, n = np.histogram(offshore, np.arange(len(self.gates)), density=True)
+        lh, n = np.histogram(landfall, np.arange(1, len(self.gates) + 1),
+                             density=True)
+        oh, n = np.histogram(offshore, np.arange(1, len(self.gates) + 1),
+                             density=True)
         return lh, oh
 
     def processResults(self, results, index):
-- 
2.43.0


From 31c53e49a51039a7866d1472992d1edf5816235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:19:25 +0000
Subject: [PATCH 25/25] fix: give landfall rates of zero for tracks that never
 cross the coast

Without any landfall the rates were undefined, and one such simulation
made the mean over all simulations undefined.
---
 Evaluate/landfallRates.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index f3ce75f..e0f928a 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -125,10 +125,14 @@ class LandfallRates(object):
                             offshore.append(j)
 
         # Generate the histograms to be returned:
-        lh, n = np.histogram(landfall, np.arange(1, len(self.gates) + 1),
-                             density=True)
-        oh, n = np.histogram(offshore, np.arange(1, len(self.gates) + 1),
-                             density=True)
+        lh = np.zeros(len(self.gates) - 1)
+        oh = np.zeros(len(self.gates) - 1)
+        if len(landfall) > 0:
+            lh, n = np.histogram(landfall, np.arange(1, len(self.gates) + 1),
+                                 density=True)
+        if len(offshore) > 0:
+            oh, n = np.histogram(offshore, np.arange(1, len(self.gates) + 1),
+                                 density=True)
         return lh, oh
 
     def processResults(self, results, index):
-- 
2.43.0

