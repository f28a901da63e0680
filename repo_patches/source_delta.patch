From 2c467ad0970b45d2bc695dabfabad88929f50401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 01/37] fix: accept whole-number coefficients in components

---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 82d3b44..0069a88 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -107,8 +107,8 @@ class Scatterer(Component):
         self._coefficient = coefficient
         if coefficient is None:
             raise ValueError("Coefficient must be specified.")
-        elif isinstance(coefficient, (float,)):
-            self._abs_dist = Distribution(x=None, y=coefficient, hist=hist)
+        elif isinstance(coefficient, (float, int)):
+            self._abs_dist = Distribution(x=None, y=float(coefficient), hist=hist)
         elif isinstance(coefficient, np.ndarray):
             self._abs_dist = Distribution(
                 x=coefficient[:, 0], y=coefficient[:, 1], hist=hist
-- 
2.43.0


From 08c5906b5cca983161803be79fa33e5c3d0da3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:14 +0000
Subject: [PATCH 02/37] fix: keep the rays of two tasks run by one worker
 process apart

---
 pvtrace/scene/scene.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 63f5263..9eafb35 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -59,14 +59,19 @@ def is_end_ray(event, metadata):
     return False
 
 
-def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
-    """Worker function for multiple processing puts results into queue."""
+def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays, worker=0):
+    """Worker function for multiple processing puts results into queue.
+
+    `worker` must be different for every call of one simulation because the same
+    process can be given more than one of them.
+    """
     # Re-seed for this thread/process
     if seed is not None:
         np.random.seed(seed)
 
     count = 0
     pid = os.getpid()
+    tag = (pid, worker)
 
     # What is an "end ray"?
     # Only record major ray events should as entering/reflecting from nodes
@@ -83,9 +88,9 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays):
             ray, event, metadata = info
             if end_rays:
                 if is_end_ray(event, metadata):
-                    queue.put((pid, idx, ray, event, metadata))
+                    queue.put((tag, idx, ray, event, metadata))
             else:
-                queue.put((pid, idx, ray, event, metadata))
+                queue.put((tag, idx, ray, event, metadata))
     return pid
 
 
@@ -293,7 +298,7 @@ class Scene(object):
             results_proxy = [
                 pool.apply_async(
                     do_simulation_add_to_queue,
-                    (self, rays[idx], seeds[idx], queue, end_rays),
+                    (self, rays[idx], seeds[idx], queue, end_rays, idx),
                 )
                 for idx in range(workers)
             ]
-- 
2.43.0


From 365cbc8f7940dec5850887788fe4d93be655e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 03/37] fix: notice killed worker processes instead of waiting
 for ever

---
 pvtrace/scene/scene.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pvtrace/scene/scene.py b/pvtrace/scene/scene.py
index 9eafb35..3adb767 100644
--- a/pvtrace/scene/scene.py
+++ b/pvtrace/scene/scene.py
@@ -94,6 +94,19 @@ def do_simulation_add_to_queue(scene, num_rays, seed, queue, end_rays, worker=0)
     return pid
 
 
+def wait_for_worker(result, children):
+    """Returns the value of an asynchronous result.
+
+    A pool never completes the task of a worker process that was killed, e.g. by
+    the operating system when memory runs out, so keep an eye on the processes.
+    """
+    while not result.ready():
+        result.wait(1.0)
+        if not result.ready() and not all(child.is_alive() for child in children):
+            raise RuntimeError("A worker process ended unexpectedly")
+    return result.get()
+
+
 class Scene(object):
     """A scene graph of nodes."""
 
@@ -291,7 +304,9 @@ class Scene(object):
                 "Seed must be None to ensure different quasi-random sequences in each process"
             )
 
+        others = multiprocessing.active_children()
         pool = multiprocessing.Pool(processes=workers)
+        children = [c for c in multiprocessing.active_children() if c not in others]
 
         # Results are send to queue
         if queue:
@@ -302,7 +317,7 @@ class Scene(object):
                 )
                 for idx in range(workers)
             ]
-            [result.get() for result in results_proxy]
+            [wait_for_worker(result, children) for result in results_proxy]
             return
 
         # Results are processed directly and returned
@@ -312,7 +327,7 @@ class Scene(object):
         ]
         results = []
         for result in results_proxy:
-            histories = result.get()
+            histories = wait_for_worker(result, children)
             for history in histories:
                 results.append(history)
         return results
-- 
2.43.0


From 2280b80830f067ea3984cf7d330771ecfa86d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 04/37] fix: end and report failure of simulate when recording
 fails

---
 pvtrace/cli/main.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/main.py b/pvtrace/cli/main.py
index 4d6a5c6..40e35c4 100644
--- a/pvtrace/cli/main.py
+++ b/pvtrace/cli/main.py
@@ -3,7 +3,6 @@ import threading
 import typer
 import sqlite3
 import os
-import time as pytime
 from pathlib import Path
 from typing import Optional
 from queue import Empty
@@ -161,6 +160,26 @@ def monitor_queue(
             pass
 
 
+def run_monitor(failures, queue, stop, *args):
+    """Runs `monitor_queue` and appends an exception raised by it to `failures`.
+
+    Remaining events are thrown away in that case, otherwise the queue fills up and
+    the simulation never ends.
+    """
+    try:
+        monitor_queue(args[0], queue, stop, *args[1:])
+    except Exception as err:
+        failures.append(err)
+        try:
+            while not (stop.is_set() and queue.empty()):
+                try:
+                    queue.get(True, 0.1)
+                except Empty:
+                    pass
+        except Exception:
+            pass  # the queue itself is gone
+
+
 @app.command(short_help="Run raytrace simulations")
 def simulate(
     scene: Optional[Path] = typer.Argument(
@@ -211,13 +230,16 @@ def simulate(
     manager = multiprocessing.Manager()
     queue = manager.Queue(maxsize=10000)
     stop = threading.Event()
+    failures = []
     with typer.progressbar(length=rays) as progress:
         monitor_thread = threading.Thread(
-            target=monitor_queue,
+            target=run_monitor,
+            daemon=True,
             args=(
-                dbfilepath,
+                failures,
                 queue,
                 stop,
+                dbfilepath,
                 progress,
                 scene_obj,
                 zmq,
@@ -233,11 +255,11 @@ def simulate(
                 rays, workers=workers, seed=seed, queue=queue, end_rays=end_rays
             )
         finally:
-            # Wait for the queue to be empty before killing the monitor thread
-            while not queue.empty():
-                pytime.sleep(0.2)
+            # The monitor thread ends when the queue is empty
             stop.set()
             monitor_thread.join()
+    if failures:
+        raise failures[0]
     print("OK")
 
 
-- 
2.43.0


From abb48a2b08b3881d4ac9289c2713ba647553ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 05/37] fix: time lost, reacted and killed commands failed
 whenever there was data

---
 pvtrace/cli/time.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 4a45856..93ef085 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -234,8 +234,7 @@ def lost(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when reacted in node")
@@ -270,8 +269,7 @@ def reacted(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 @app.command(short_help="Time when killed in node")
@@ -306,8 +304,7 @@ def killed(
     cur = conn.cursor()
     result = cur.execute(*sql).fetchall()
     if len(result) > 0:
-        _, samples = zip(*result)
-        handle_output(samples, output, vertical=vertical)
+        handle_output(result, output, vertical=vertical)
 
 
 def main():
-- 
2.43.0


From d17fbf1b3c809a9fd7afb533ce29f73f2e816cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 06/37] fix: do not round nanosecond times to tenths in JSON
 output

---
 pvtrace/cli/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/cli/time.py b/pvtrace/cli/time.py
index 93ef085..a418660 100644
--- a/pvtrace/cli/time.py
+++ b/pvtrace/cli/time.py
@@ -51,7 +51,7 @@ def handle_output(result, output, vertical=None):
         buffer = io.StringIO()
         pandas.DataFrame(
             result[:, 1], columns=["seconds"], index=result[:, 0].astype(int)
-        ).to_json(buffer)
+        ).to_json(buffer, double_precision=15)
         print(buffer.getvalue())
 
 
-- 
2.43.0


From 675a3228f2ef76ebaf925235382539ae99389b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 07/37] fix: live view keeps render-max histories and removes
 their markers

---
 pvtrace/scene/renderer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pvtrace/scene/renderer.py b/pvtrace/scene/renderer.py
index 9f9df80..20f54c6 100644
--- a/pvtrace/scene/renderer.py
+++ b/pvtrace/scene/renderer.py
@@ -39,7 +39,7 @@ class MeshcatRenderer(object):
         self.vis = meshcat.Visualizer(zmq_url=zmq_url)
         if open_browser:
             self.vis.open()
-        self.ray_histories = deque(maxlen=max_histories)
+        self.ray_histories = deque()
         self.max_histories = max_histories
         self.added_index = 0
         self.wireframe = wireframe
@@ -309,19 +309,20 @@ class MeshcatRenderer(object):
             if baubles:
                 event = start_part[1]
                 if event in {Event.TRANSMIT}:
-                    baubid = self.get_next_identifer()
-                    vis[f"exit/{baubid}"].set_object(
+                    baubid = f"exit/{self.get_next_identifer()}"
+                    vis[baubid].set_object(
                         g.Sphere(bauble_radius),
                         g.MeshBasicMaterial(
                             color=colour, transparency=False, opacity=1
                         ),
                     )
-                    vis[f"exit/{baubid}"].set_transform(tf.translation_matrix(start))
+                    vis[baubid].set_transform(tf.translation_matrix(start))
 
                     ids.append(baubid)
 
         self.ray_histories.append(ids)
-        if len(self.ray_histories) == self.max_histories:
+        limit = self.max_histories
+        if limit is not None and len(self.ray_histories) > limit:
             ids_to_remove = self.ray_histories.popleft()
             for id_to_remove in ids_to_remove:
                 self.remove_object(id_to_remove)
-- 
2.43.0


From 6eaa0f20eef4b7ec22bd43faf04b7112f98f4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 08/37] fix: rotate through the lights across the bundles of a
 stream; refuse scenes without lights

---
 pvtrace/engine/api.py  | 7 +++++--
 pvtrace/engine/emit.py | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 3653372..0ef6644 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -203,6 +203,7 @@ def simulate(
     max_events=128,
     emit_method="kT",
     record_every=1,
+    start=0,
 ):
     """Trace `num_rays` through `scene` with the compiled engine.
 
@@ -210,7 +211,8 @@ def simulate(
     all light delegates are supported); the tracing loop runs in native
     code. Recorders attached to scene nodes tally every ray; full event
     histories are kept for every `record_every`-th ray (all rays when 1,
-    none when 0). Raises `UnsupportedSceneError` if the scene cannot be
+    none when 0). `start` is the number of rays already traced when this
+    is part of a stream. Raises `UnsupportedSceneError` if the scene cannot be
     compiled — callers can fall back to the Python tracer.
     """
     from pvtrace.engine import _kernel
@@ -227,7 +229,7 @@ def simulate(
 
     from pvtrace.engine.emit import emit_bundle
 
-    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays)
+    positions, directions, wavelengths, sources = emit_bundle(scene, num_rays, start)
 
     tic = time.perf_counter()
     data = _kernel.trace_bundle(
@@ -259,6 +261,7 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     traced = 0
     while traced < num_rays:
         n = min(bundle, num_rays - traced)
+        kwargs["start"] = traced
         result = simulate(scene, n, seed=int(seed) + traced, **kwargs)
         traced += n
         yield result, traced
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 339a60a..afd9268 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -89,22 +89,24 @@ def _sample_directions(delegate, n):
     return None
 
 
-def emit_bundle(scene, num_rays):
+def emit_bundle(scene, num_rays, start=0):
     """Emit `num_rays` from the scene's lights as world-frame arrays.
 
     Returns (positions, directions, wavelengths, sources). Lights with
     built-in delegates are sampled with numpy; others fall back to the
     per-ray Python generator. Rays cycle between lights exactly like
-    `scene.emit`.
+    `scene.emit`; `start` is the number of rays emitted before this bundle.
     """
     lights = scene.light_nodes
+    if num_rays > 0 and len(lights) == 0:
+        raise ValueError("Scene has no light sources.")
     positions = np.zeros((num_rays, 3))
     directions = np.zeros((num_rays, 3))
     wavelengths = np.zeros(num_rays)
     sources = np.empty(num_rays, dtype=object)
 
     for index, node in enumerate(lights):
-        rows = np.arange(index, num_rays, len(lights))
+        rows = np.arange((index - start) % len(lights), num_rays, len(lights))
         n = rows.size
         if n == 0:
             continue
-- 
2.43.0


From 5b18b68506c5992a1ca80b63b103a6727c23395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 09/37] fix: do not count values below a histogram's range in
 its first bin

---
 pvtrace/engine/_kernel.pyx | 4 ++--
 pvtrace/engine/tally.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index f2a3fae..feda200 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -543,7 +543,7 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
             va = prop_value(S.h_prop_a[h], wavelength, angle, duration,
                             travelled, lpos)
             ia = <int>((va - S.h_lo_a[h]) / (S.h_hi_a[h] - S.h_lo_a[h]) * S.h_na[h])
-            if ia < 0 or ia >= S.h_na[h]:
+            if va < S.h_lo_a[h] or ia < 0 or ia >= S.h_na[h]:
                 continue
             if S.h_prop_b[h] < 0:
                 bins[S.h_offset[h] + ia] += 1
@@ -551,7 +551,7 @@ cdef inline void tally(SceneT* S, AccBase* AB, int tid, int sel, int node,
                 vb = prop_value(S.h_prop_b[h], wavelength, angle, duration,
                                 travelled, lpos)
                 ib = <int>((vb - S.h_lo_b[h]) / (S.h_hi_b[h] - S.h_lo_b[h]) * S.h_nb[h])
-                if ib < 0 or ib >= S.h_nb[h]:
+                if vb < S.h_lo_b[h] or ib < 0 or ib >= S.h_nb[h]:
                     continue
                 bins[S.h_offset[h] + ia * S.h_nb[h] + ib] += 1
 
diff --git a/pvtrace/engine/tally.py b/pvtrace/engine/tally.py
index ae9d8c6..bd0a823 100644
--- a/pvtrace/engine/tally.py
+++ b/pvtrace/engine/tally.py
@@ -80,7 +80,7 @@ class _TallyState:
 
 def _bin_index(value, hist):
     index = int((value - hist.start) / (hist.stop - hist.start) * hist.bins)
-    return index if 0 <= index < hist.bins else -1
+    return index if value >= hist.start and 0 <= index < hist.bins else -1
 
 
 def tally_histories(scene, histories):
-- 
2.43.0


From a5c2b86cf50152a5a17d79b056fb9c007a0ae6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 10/37] fix: sample phase functions in the container's frame in
 the compiled engine

---
 pvtrace/engine/_kernel.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index feda200..ffbcb91 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -789,8 +789,8 @@ cdef int trace_one(
                 # Radiative: re-emit with new direction (and wavelength)
                 sample_phase(S.comp_phase_type[comp], S.comp_phase_param[comp],
                              &rng, new_dir)
-                for i in range(3):
-                    direction[i] = new_dir[i]
+                # Phase functions are relative to the container's own axes
+                transform_vector(S.l2w + container * 16, new_dir, direction)
                 source = comp
                 if ctype == COMP_LUMINOPHORE:
                     ax = S.ems_x + S.ems_start[comp]
-- 
2.43.0


From 8c889f9f53c4e0484fa304285920da57dd511617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 11/37] fix: refuse subclasses the compiled engine would trace
 as their base class

---
 pvtrace/engine/compiler.py | 30 +++++++++++++++++++-----------
 pvtrace/engine/emit.py     | 31 ++++++++++++++++---------------
 2 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/pvtrace/engine/compiler.py b/pvtrace/engine/compiler.py
index 9bc600c..640a5db 100644
--- a/pvtrace/engine/compiler.py
+++ b/pvtrace/engine/compiler.py
@@ -15,7 +15,11 @@ from pvtrace.geometry.box import Box
 from pvtrace.geometry.cylinder import Cylinder
 from pvtrace.geometry.sphere import Sphere
 from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
-from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate
+from pvtrace.material.surface import (
+    FresnelSurfaceDelegate,
+    NullSurfaceDelegate,
+    Surface,
+)
 from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
 
 # Volume interaction selectors cannot be restricted by surface facet
@@ -206,14 +210,14 @@ class CompiledScene:
     # -- geometry ------------------------------------------------------
 
     def _compile_geometry(self, i, geometry):
-        if isinstance(geometry, Box):
+        if type(geometry) is Box:
             self.geom_type[i] = GEOM_BOX
             size = np.asarray(geometry._size, dtype=np.float64)
             self.geom_params[i, :3] = size
-        elif isinstance(geometry, Sphere):
+        elif type(geometry) is Sphere:
             self.geom_type[i] = GEOM_SPHERE
             self.geom_params[i, 0] = float(geometry.radius)
-        elif isinstance(geometry, Cylinder):
+        elif type(geometry) is Cylinder:
             self.geom_type[i] = GEOM_CYLINDER
             self.geom_params[i, 0] = float(geometry.length)
             self.geom_params[i, 1] = float(geometry.radius)
@@ -235,6 +239,10 @@ class CompiledScene:
     # -- surfaces ------------------------------------------------------
 
     def _surface_tag(self, node, material):
+        if type(material.surface) is not Surface:
+            raise UnsupportedSceneError(
+                f"Node {node.name!r}: custom surfaces are not supported."
+            )
         delegate = material.surface.delegate
         if type(delegate) is FresnelSurfaceDelegate:
             return SURF_FRESNEL
@@ -249,14 +257,14 @@ class CompiledScene:
     # -- components ----------------------------------------------------
 
     def _compile_component(self, node, component, abs_x, abs_y, ems_x, ems_cdf):
-        # Order matters: Reactor < Absorber < Scatterer, Luminophore < Scatterer
-        if isinstance(component, Reactor):
+        # Exact types: a subclass may behave differently
+        if type(component) is Reactor:
             ctype = COMP_REACTOR
-        elif isinstance(component, Absorber):
+        elif type(component) is Absorber:
             ctype = COMP_ABSORBER
-        elif isinstance(component, Luminophore):
+        elif type(component) is Luminophore:
             ctype = COMP_LUMINOPHORE
-        elif isinstance(component, Scatterer):
+        elif type(component) is Scatterer:
             ctype = COMP_SCATTERER
         else:
             raise UnsupportedSceneError(
@@ -301,9 +309,9 @@ class CompiledScene:
         phase = component.phase_function
         if phase is isotropic:
             return PHASE_ISOTROPIC, 0.0
-        if isinstance(phase, HenyeyGreenstein):
+        if type(phase) is HenyeyGreenstein:
             return PHASE_HENYEY_GREENSTEIN, float(phase.g)
-        if isinstance(phase, Cone):
+        if type(phase) is Cone:
             return PHASE_CONE, float(phase.theta_max)
         raise UnsupportedSceneError(
             f"Node {node.name!r}: custom phase functions are not supported."
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index afd9268..2bf5423 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -20,13 +20,13 @@ def _sphere_directions(theta, phi):
 
 
 def _sample_wavelengths(delegate, n):
-    if delegate is light_module.default_wavelength or isinstance(
-        delegate, light_module.DefaultWavelength
+    if delegate is light_module.default_wavelength or (
+        type(delegate) is light_module.DefaultWavelength
     ):
         return np.full(n, 555.0)
-    if isinstance(delegate, light_module.ConstantWavelengthMask):
+    if type(delegate) is light_module.ConstantWavelengthMask:
         return np.full(n, delegate.nanometers)
-    if isinstance(delegate, light_module.SpectrumWavelengthMask):
+    if type(delegate) is light_module.SpectrumWavelengthMask:
         return np.asarray(
             delegate.distribution.sample(np.random.uniform(0, 1, n)), dtype=float
         )
@@ -34,23 +34,23 @@ def _sample_wavelengths(delegate, n):
 
 
 def _sample_positions(delegate, n):
-    if delegate is light_module.default_position or isinstance(
-        delegate, light_module.DefaultPosition
+    if delegate is light_module.default_position or (
+        type(delegate) is light_module.DefaultPosition
     ):
         return np.zeros((n, 3))
-    if isinstance(delegate, light_module.RectangularMask):
+    if type(delegate) is light_module.RectangularMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
             np.zeros(n),
         ))
-    if isinstance(delegate, light_module.CircularMask):
+    if type(delegate) is light_module.CircularMask:
         angle = np.random.uniform(0, 2 * np.pi, n)
         radius = np.sqrt(np.random.uniform(0, 1, n)) * delegate.radius
         return np.column_stack(
             (radius * np.cos(angle), radius * np.sin(angle), np.zeros(n))
         )
-    if isinstance(delegate, light_module.CubeMask):
+    if type(delegate) is light_module.CubeMask:
         return np.column_stack((
             np.random.uniform(-delegate.x, delegate.x, n),
             np.random.uniform(-delegate.y, delegate.y, n),
@@ -60,11 +60,11 @@ def _sample_positions(delegate, n):
 
 
 def _sample_directions(delegate, n):
-    if delegate is light_module.default_direction or isinstance(
-        delegate, light_module.DefaultDirection
+    if delegate is light_module.default_direction or (
+        type(delegate) is light_module.DefaultDirection
     ):
         return np.tile((0.0, 0.0, 1.0), (n, 1))
-    if isinstance(delegate, Cone):
+    if type(delegate) is Cone:
         theta = np.arcsin(
             np.sqrt(np.random.uniform(0, 1, n)) * np.sin(delegate.theta_max)
         )
@@ -78,7 +78,7 @@ def _sample_directions(delegate, n):
         theta = np.arcsin(np.sqrt(np.random.uniform(0, 1, n)))
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
         return _sphere_directions(theta, phi)
-    if isinstance(delegate, HenyeyGreenstein):
+    if type(delegate) is HenyeyGreenstein:
         g = delegate.g
         if abs(g) < 1e-12:
             return _sample_directions(isotropic, n)
@@ -115,8 +115,9 @@ def emit_bundle(scene, num_rays, start=0):
         pos = _sample_positions(light.position, n)
         direction = _sample_directions(light.direction, n)
 
-        if wav is None or pos is None or direction is None:
-            # Unknown delegate: per-ray Python fallback for this light
+        custom = type(light) is not light_module.Light
+        if custom or wav is None or pos is None or direction is None:
+            # Unknown light or delegate: per-ray Python fallback for this light
             for row, ray in zip(rows, node.emit(n)):
                 world = ray.representation(node, scene.root)
                 positions[row] = world.position
-- 
2.43.0


From 5ff359391e7c78c5e0f999fb412a10f166f44958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 12/37] fix: absorbing component could be out of range or one
 with zero coefficient by rounding

---
 pvtrace/material/material.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pvtrace/material/material.py b/pvtrace/material/material.py
index 8323c5c..1d2b958 100644
--- a/pvtrace/material/material.py
+++ b/pvtrace/material/material.py
@@ -52,12 +52,9 @@ class Material(object):
         coefs = np.array([x.coefficient(wavelength) for x in self.components])
         if np.any(coefs < 0.0):
             raise ValueError("Must be positive.")
-        count = len(self.components)
-        bins = list(range(0, count + 1))
         cdf = np.cumsum(coefs)
         pdf = cdf / max(cdf)
-        pdf = np.hstack([0, pdf[:]])
-        pdfinv_lookup = np.interp(np.random.uniform(), pdf, bins)
-        index = int(np.floor(pdfinv_lookup))
+        # Not by interpolation, which can round up to the next component
+        index = int(np.searchsorted(pdf, np.random.uniform(), side="right"))
         component = self.components[index]
         return component
-- 
2.43.0


From d9c614814d4deef7528cbbf2a13e23d08719ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 13/37] fix: Henyey-Greenstein directions were not a number
 when the cosine rounds above one

---
 pvtrace/engine/_kernel.pyx | 2 +-
 pvtrace/engine/emit.py     | 2 +-
 pvtrace/material/utils.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index ffbcb91..8590197 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -460,7 +460,7 @@ cdef inline void sample_phase(int phase_type, double phase_param, RNG* rng, doub
         s = 2.0 * g1 - 1.0
         mu = 1.0 / (2.0 * g) * (1.0 + g * g - ((1.0 - g * g) / (1.0 + g * s)) ** 2)
         phi = 2.0 * M_PI * rng_uniform(rng)
-        theta = acos(mu)
+        theta = acos(min(max(mu, -1.0), 1.0))
     elif phase_type == PHASE_CONE:
         g1 = rng_uniform(rng)
         g2 = rng_uniform(rng)
diff --git a/pvtrace/engine/emit.py b/pvtrace/engine/emit.py
index 2bf5423..b198928 100644
--- a/pvtrace/engine/emit.py
+++ b/pvtrace/engine/emit.py
@@ -85,7 +85,7 @@ def _sample_directions(delegate, n):
         s = 2 * np.random.uniform(0, 1, n) - 1
         mu = (1 + g * g - ((1 - g * g) / (1 + g * s)) ** 2) / (2 * g)
         phi = 2 * np.pi * np.random.uniform(0, 1, n)
-        return _sphere_directions(np.arccos(mu), phi)
+        return _sphere_directions(np.arccos(np.clip(mu, -1.0, 1.0)), phi)
     return None
 
 
diff --git a/pvtrace/material/utils.py b/pvtrace/material/utils.py
index 905a2f1..26e8b03 100644
--- a/pvtrace/material/utils.py
+++ b/pvtrace/material/utils.py
@@ -122,7 +122,7 @@ def henyey_greenstein(g=0.0) -> numpy.ndarray:
     if close_to_zero(g):
         return isotropic()
     phi = 2 * np.pi * np.random.uniform()
-    theta = np.arccos(mu)
+    theta = np.arccos(np.clip(mu, -1.0, 1.0))
     coords = spherical_to_cart(theta, phi)
     return coords
 
-- 
2.43.0


From a1186fd3d721d5ef5e5b1fe64fc8dc79063a04a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:07 +0000
Subject: [PATCH 14/37] fix: emission of light bluer than the emission spectrum
 failed instead of using all of it

---
 pvtrace/material/component.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/material/component.py b/pvtrace/material/component.py
index 0069a88..4599130 100644
--- a/pvtrace/material/component.py
+++ b/pvtrace/material/component.py
@@ -409,7 +409,7 @@ class Luminophore(Scatterer):
             eV = 1240.0 / nm
             eV = eV + 3 / 2 * kB * T  # Assumes 3 dimensional degrees of freedom
             nm = 1240.0 / eV
-            p1 = dist.lookup(nm)
+            p1 = dist.lookup(max(nm, dist._x_range[0]))
         elif method == "boltzmann":
             # Convolve the emission spectrum with a bolzmann factor centered at
             # the current photon energy. This will allow the energy to go up via
@@ -417,7 +417,7 @@ class Luminophore(Scatterer):
             raise NotImplementedError()
         elif method == "redshift":
             # Emission energy must always redshift
-            p1 = dist.lookup(nm)
+            p1 = dist.lookup(max(nm, dist._x_range[0]))
         elif method == "full":
             # Emission energy is sampled from full distribution
             p1 = 0.0
-- 
2.43.0


From 9d8538554aea1eb55efac5f0280ee56082d0a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 15/37] fix: the medium beyond a surface is the innermost node
 there, not the next node in line

---
 pvtrace/algorithm/photon_tracer.py |  7 ++++++-
 pvtrace/engine/_kernel.pyx         | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 857dae1..3c42d35 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -103,7 +103,12 @@ def next_hit(scene, ray):
     hit_node = hit.hit
     distance = distance_between(ray.position, point)
     if container == hit_node:
-        adjacent = intersections[1].hit
+        # Not the next node the ray hits: it may enter that one later. Surfaces
+        # touching the one hit are crossed together with it.
+        beyond = [
+            x for x in intersections if not close_to_zero(x.distance - hit.distance)
+        ]
+        adjacent = find_container(beyond) if beyond else intersections[1].hit
     else:
         adjacent = hit_node
     return hit_node, (container, adjacent), point, distance
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 8590197..cf9a143 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -638,7 +638,7 @@ cdef int trace_one(
     cdef double new_dir[3]
 
     cdef int hit, container, adjacent, first, second
-    cdef double t0, t1, best
+    cdef double t0, t1, best, t_beyond
     cdef double n_container, n1, n2, alpha, depth, u, r, angle, ddot
     cdef int comp, cbase, ccount, ctype
     cdef double total, target, running
@@ -709,7 +709,21 @@ cdef int trace_one(
             if container < 0:
                 container = hit
             if container == hit:
-                adjacent = hit_node[second]
+                # The container just beyond this surface and those touching it
+                # (photon_tracer.next_hit).
+                adjacent = -1
+                best = INFINITY
+                for node in range(S.n_nodes):
+                    nlocal = 0
+                    for i in range(nhits):
+                        if hit_node[i] == node and hit_t[i] - t0 > EPS:
+                            nlocal += 1
+                            t_beyond = hit_t[i]
+                    if nlocal == 1 and t_beyond < best:
+                        best = t_beyond
+                        adjacent = node
+                if adjacent < 0:
+                    adjacent = hit_node[second]
             else:
                 adjacent = hit
 
-- 
2.43.0


From 40ffd51c5d7b5bba98f146436e2dc490ebcb1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 16/37] fix: a ray inside a shape that is not convex could be
 placed outside it

---
 pvtrace/algorithm/photon_tracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 3c42d35..0d80277 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -44,7 +44,8 @@ def find_container(intersections):
     if len(intersections) == 1:
         return intersections[0].hit
     count = collections.Counter([x.hit for x in intersections]).most_common()
-    candidates = [x[0] for x in count if x[1] == 1]
+    # An odd number of surfaces ahead, more than one if the shape is not convex
+    candidates = [x[0] for x in count if x[1] % 2 == 1]
     pairs = []
     for intersection in intersections:
         node = intersection.hit
-- 
2.43.0


From 7e33eda74e65e685ec5d2c66ffa0b75e77312681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 17/37] fix: being on a surface was decided by a fixed
 distance, too short for scenes of several metres

---
 pvtrace/algorithm/photon_tracer.py | 9 ++++++---
 pvtrace/engine/_kernel.pyx         | 8 ++++++--
 pvtrace/geometry/box.py            | 4 +++-
 pvtrace/geometry/mesh.py           | 5 +++--
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/pvtrace/algorithm/photon_tracer.py b/pvtrace/algorithm/photon_tracer.py
index 0d80277..f5159c6 100644
--- a/pvtrace/algorithm/photon_tracer.py
+++ b/pvtrace/algorithm/photon_tracer.py
@@ -81,8 +81,9 @@ def next_hit(scene, ray):
     # Intersections are in the local node's coordinate system
     intersections = scene.intersections(ray.position, ray.direction)
 
-    # Remove on surface intersections
-    intersections = [x for x in intersections if not close_to_zero(x.distance)]
+    # Remove on surface intersections; rounding errors grow with the coordinates
+    scale = max(1.0, np.max(np.abs(ray.position)))
+    intersections = [x for x in intersections if not close_to_zero(x.distance / scale)]
 
     # Convert intersection points to world node
     intersections = [x.to(scene.root) for x in intersections]
@@ -107,7 +108,9 @@ def next_hit(scene, ray):
         # Not the next node the ray hits: it may enter that one later. Surfaces
         # touching the one hit are crossed together with it.
         beyond = [
-            x for x in intersections if not close_to_zero(x.distance - hit.distance)
+            x
+            for x in intersections
+            if not close_to_zero((x.distance - hit.distance) / scale)
         ]
         adjacent = find_container(beyond) if beyond else intersections[1].hit
     else:
diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index cf9a143..47e91e9 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -638,7 +638,7 @@ cdef int trace_one(
     cdef double new_dir[3]
 
     cdef int hit, container, adjacent, first, second
-    cdef double t0, t1, best, t_beyond
+    cdef double t0, t1, best, t_beyond, eps_t
     cdef double n_container, n1, n2, alpha, depth, u, r, angle, ddot
     cdef int comp, cbase, ccount, ctype
     cdef double total, target, running
@@ -663,6 +663,8 @@ cdef int trace_one(
             break
 
         # --- next_hit: intersect every node ---------------------------
+        # Rounding errors grow with the coordinates
+        eps_t = EPS * max(1.0, max(fabs(pos[0]), max(fabs(pos[1]), fabs(pos[2]))))
         nhits = 0
         for node in range(S.n_nodes):
             node_hits[node] = 0
@@ -671,6 +673,8 @@ cdef int trace_one(
             transform_vector(S.w2l + node * 16, direction, local_d)
             nlocal = intersect_node(S, node, local_o, local_d, ts)
             for k in range(nlocal):
+                if ts[k] <= eps_t:
+                    continue
                 if nhits < MAX_HITS:
                     hit_t[nhits] = ts[k]
                     hit_node[nhits] = node
@@ -716,7 +720,7 @@ cdef int trace_one(
                 for node in range(S.n_nodes):
                     nlocal = 0
                     for i in range(nhits):
-                        if hit_node[i] == node and hit_t[i] - t0 > EPS:
+                        if hit_node[i] == node and hit_t[i] - t0 > eps_t:
                             nlocal += 1
                             t_beyond = hit_t[i]
                     if nlocal == 1 and t_beyond < best:
diff --git a/pvtrace/geometry/box.py b/pvtrace/geometry/box.py
index d5ca672..0e68c55 100644
--- a/pvtrace/geometry/box.py
+++ b/pvtrace/geometry/box.py
@@ -49,7 +49,9 @@ class Box(Mesh):
 
     def normal(self, surface_point: tuple) -> tuple:
         on_surf, surf_indexes = on_aabb_surface(
-            self._size, surface_point, atol=2 * EPS_ZERO
+            self._size,
+            surface_point,
+            atol=max(2 * EPS_ZERO, 1e-10 * np.max(self._size)),
         )
         if not on_surf:
             raise GeometryError(
diff --git a/pvtrace/geometry/mesh.py b/pvtrace/geometry/mesh.py
index 08018d7..63f6dd0 100644
--- a/pvtrace/geometry/mesh.py
+++ b/pvtrace/geometry/mesh.py
@@ -71,14 +71,15 @@ class Mesh(Geometry):
             raise GeometryError(
                 "Mesh must have a single closest point to calculate normal."
             )
-        if not np.any(np.absolute(distances) < EPS_ZERO):
+        threshold = max(EPS_ZERO, 1e-10 * mesh.scale)
+        if not np.any(np.absolute(distances) < threshold):
             raise GeometryError(
                 "Point is not on surface.",
                 {
                     "point": surface_point,
                     "geometry": self,
                     "distances": distances,
-                    "threshold": EPS_ZERO,
+                    "threshold": threshold,
                 },
             )
         normal = tuple(mesh.face_normals[triangle_id[0]])
-- 
2.43.0


From 1702cd43816eb10c38174a33121f65f9367756f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 18/37] fix: a ray re-emitted with the last event slots lost
 its KILL record

---
 pvtrace/engine/_kernel.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/engine/_kernel.pyx b/pvtrace/engine/_kernel.pyx
index 47e91e9..e4f2d64 100644
--- a/pvtrace/engine/_kernel.pyx
+++ b/pvtrace/engine/_kernel.pyx
@@ -656,8 +656,9 @@ cdef int trace_one(
         count += 1
 
         # Kill the ray when its event budget is exhausted rather than
-        # silently dropping events (leave room for the KILL record).
-        if base >= 0 and nevents >= elog.max_events - 1:
+        # silently dropping events (leave room for the KILL record and for
+        # the two events of an absorption with re-emission).
+        if base >= 0 and nevents >= elog.max_events - 2:
             record(elog, base, &nevents, EV_KILL, -1, -1, -1, -1, source,
                    pos, direction, NULL, wavelength, travelled, duration)
             break
-- 
2.43.0


From bc7b2457199274ffbae64505aebf36df0de6a0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 19/37] fix: studio runs of one connection mixed, lost their
 stop, and failed silently

A run started while another was in progress ran concurrently with it, and cleared the
stop flag that had just been set for it: pressing Run during a run sends stop and run. The
scene was read twice, before and after sending the started message. An exception during a
run was lost, so that the client waited for ever, and a message that is not a command ended
the connection and left its run going.
---
 pvtrace/studio/server.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index e5f9de7..5c637f8 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -201,7 +201,19 @@ def create_app(document_path=None):
         stop = {"flag": False}
         task = None
 
-        async def run(params):
+        async def run(params, stop, previous):
+            # Messages of different runs never mix
+            if previous is not None:
+                await asyncio.wait([previous])
+            try:
+                await trace(params, studio.scene, stop)
+            except WebSocketDisconnect:
+                pass
+            except Exception as exception:
+                await ws.send_json({"type": "error",
+                                    "message": str(exception) or repr(exception)})
+
+        async def trace(params, scene, stop):
             loop = asyncio.get_running_loop()
             num_rays = int(params.get("rays", 100000))
             bundle = int(params.get("bundle", 25000))
@@ -209,7 +221,7 @@ def create_app(document_path=None):
             record_every = int(params.get("record_every", 1000))
             max_paths = int(params.get("max_paths", 200))
 
-            compiled = engine.compile_scene(studio.scene)
+            compiled = engine.compile_scene(scene)
             hist_meta = _histogram_meta(compiled)
             await ws.send_json({"type": "started", "total": num_rays,
                                 "histograms": hist_meta})
@@ -223,10 +235,10 @@ def create_app(document_path=None):
             tic = time.perf_counter()
 
             stream = engine.simulate_stream(
-                studio.scene, num_rays, bundle=bundle, seed=seed,
+                scene, num_rays, bundle=bundle, seed=seed,
                 record_every=record_every,
             )
-            while True:
+            while not stop["flag"]:
                 item = await loop.run_in_executor(None, next, stream, None)
                 if item is None or stop["flag"]:
                     break
@@ -257,18 +269,25 @@ def create_app(document_path=None):
 
         try:
             while True:
-                message = await ws.receive_json()
-                command = message.get("cmd")
+                try:
+                    message = await ws.receive_json()
+                    command = message.get("cmd")
+                except (ValueError, KeyError, TypeError, AttributeError,
+                        RecursionError):
+                    continue  # not a command
                 if command == "run":
                     if studio.scene is None:
                         await ws.send_json({"type": "error",
                                             "message": "Apply a scene first."})
                         continue
-                    stop["flag"] = False
-                    task = asyncio.create_task(run(message))
+                    task = asyncio.create_task(run(message, stop, task))
                 elif command == "stop":
+                    # Only the runs requested so far
                     stop["flag"] = True
+                    stop = {"flag": False}
         except WebSocketDisconnect:
+            pass
+        finally:
             stop["flag"] = True
             if task:
                 task.cancel()
-- 
2.43.0


From c802a019f9aedc97ba233e628cc1ef7dd4853abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 20/37] fix: studio lost the old file when saving or uploading
 failed part-way

---
 pvtrace/studio/server.py | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 5c637f8..adc8484 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -8,6 +8,7 @@ results (recorder tallies and sampled ray paths) over a websocket.
 import asyncio
 import io
 import os
+import shutil
 import tempfile
 import time
 from pathlib import Path
@@ -136,6 +137,35 @@ class Studio:
                 "spec": self.spec}
 
 
+def _write_text(path, text):
+    """Replace a file by its complete new content, or leave it as it is."""
+    path = os.path.realpath(path)
+    folder = os.path.dirname(path)
+    fd, temporary = tempfile.mkstemp(dir=folder, prefix=".pvtrace-")
+    try:
+        with open(fd, "w") as fp:
+            fp.write(text)
+            fp.flush()
+            os.fsync(fp.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, temporary)
+        else:
+            umask = os.umask(0)
+            os.umask(umask)
+            os.chmod(temporary, 0o666 & ~umask)
+        os.replace(temporary, path)
+    except BaseException:
+        os.unlink(temporary)
+        raise
+    if os.name == "posix":
+        # The new name has to survive a power failure as well
+        fd = os.open(folder, os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
+
+
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
@@ -170,14 +200,14 @@ def create_app(document_path=None):
             return JSONResponse({"error": "Only .csv or .txt files."},
                                 status_code=422)
         target = Path(document_path).parent / name
-        target.write_text(payload["content"])
+        _write_text(target, payload["content"])
         return {"saved": name}
 
     @app.post("/api/save")
     async def save_document():
         if not document_path:
             return JSONResponse({"error": "No file was opened."}, status_code=422)
-        Path(document_path).write_text(studio.document)
+        _write_text(document_path, studio.document)
         return {"saved": str(document_path)}
 
     @app.post("/api/patch")
-- 
2.43.0


From 7f56116288d45375ac778f4345539e909c29332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 21/37] fix: a stream with a bundle of no rays never ended

---
 pvtrace/engine/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvtrace/engine/api.py b/pvtrace/engine/api.py
index 0ef6644..b34a986 100644
--- a/pvtrace/engine/api.py
+++ b/pvtrace/engine/api.py
@@ -256,6 +256,8 @@ def simulate_stream(scene, num_rays, bundle=50000, seed=None, **kwargs):
     same seed. Accumulate recorder tallies across bundles by summing
     the `rec_*` arrays.
     """
+    if num_rays < 0 or bundle < 1:
+        raise ValueError("num_rays must not be negative, bundle must be at least 1")
     if seed is None:
         seed = np.random.randint(0, 2 ** 31 - 1)
     traced = 0
-- 
2.43.0


From 2c0a19983135c3f0491aa903890c91f53ad8b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 22/37] fix: studio left temporary files behind and looked for
 spectra in the wrong folder

Documents were parsed from a temporary file in the current working directory: it stayed
there when writing it failed, and files named in the document, e.g. an uploaded spectrum,
were looked for there instead of next to the scene document.
---
 pvtrace/cli/parse.py     |  7 +++++--
 pvtrace/studio/server.py | 22 ++++++++--------------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index c2fb7db..2cab645 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -70,12 +70,15 @@ def load_spec(filename):
 
 
 def parse(filename: str) -> Scene:
+    return parse_spec(load_spec(filename), os.path.dirname(filename))
+
+
+def parse_spec(spec: dict, working_directory: str) -> Scene:
     schema = load_schema()
-    spec = load_spec(filename)
     jsonschema.validate(spec, schema=schema)
     schema_version = spec["version"]
     if schema_version == "1.0":
-        return parse_v_1_0(spec, os.path.dirname(filename))
+        return parse_v_1_0(spec, working_directory)
     else:
         raise ValueError("Version {} not supported".format(schema_version))
 
diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index adc8484..6512cb8 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -20,7 +20,7 @@ from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
 import pvtrace.engine as engine
-from pvtrace.cli.parse import parse as parse_scene_file
+from pvtrace.cli.parse import parse_spec
 from pvtrace.engine.recorder import Heatmap
 
 STATIC = Path(__file__).resolve().parent / "static"
@@ -45,8 +45,9 @@ class NoCacheStaticFiles(StaticFiles):
 class Studio:
     """Holds the current document and its parsed scene."""
 
-    def __init__(self, document=""):
+    def __init__(self, document="", folder=None):
         self.document = document
+        self.folder = folder or os.getcwd()  # of files the document refers to
         self.scene = None
         self.spec = None
 
@@ -56,17 +57,8 @@ class Studio:
         if not isinstance(spec, dict):
             raise ValueError("Document is not a YAML mapping.")
 
-        # parse() validates against the JSON schema and reads from disk
-        with tempfile.NamedTemporaryFile(
-            "w", suffix=".yml", delete=False, dir=os.getcwd()
-        ) as fp:
-            fp.write(text)
-            path = fp.name
-        try:
-            scene = parse_scene_file(path)
-        finally:
-            os.unlink(path)
-
+        # Validates against the JSON schema; the scene gets a copy of its own
+        scene = parse_spec(yaml.safe_load(text), self.folder)
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
         self.document = text
@@ -169,9 +161,11 @@ def _write_text(path, text):
 def create_app(document_path=None):
     app = FastAPI(title="pvtrace studio")
     text = ""
+    folder = None
     if document_path:
         text = Path(document_path).read_text()
-    studio = Studio(text)
+        folder = str(Path(document_path).resolve().parent)
+    studio = Studio(text, folder)
 
     @app.get("/")
     async def index():
-- 
2.43.0


From 3f83ec1af5e572a54848de205d81dad1ef1e5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 23/37] fix: studio applied documents whose answer it could not
 send

Not-a-number or infinite values made the answer fail after the document was replaced, so
the client was told of an error and the edit was made all the same.
---
 pvtrace/studio/server.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 6512cb8..28aa4f6 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -7,6 +7,7 @@ results (recorder tallies and sampled ray paths) over a websocket.
 """
 import asyncio
 import io
+import json
 import os
 import shutil
 import tempfile
@@ -16,6 +17,7 @@ from pathlib import Path
 import numpy as np
 import yaml
 from fastapi import FastAPI, WebSocket, WebSocketDisconnect
+from fastapi.encoders import jsonable_encoder
 from fastapi.responses import FileResponse, JSONResponse
 from fastapi.staticfiles import StaticFiles
 
@@ -61,16 +63,20 @@ class Studio:
         scene = parse_spec(yaml.safe_load(text), self.folder)
         compiled = engine.compile_scene(scene)  # raises if unsupported
 
+        # Accept the document only if its answer can be sent
+        payload = self.scene_payload(compiled, scene, spec)
+        json.dumps(jsonable_encoder(payload), allow_nan=False).encode()
+
         self.document = text
         self.scene = scene
         self.spec = spec
-        return self.scene_payload(compiled)
+        return payload
 
-    def scene_payload(self, compiled):
+    def scene_payload(self, compiled, scene, spec):
         """Geometry description for the three.js viewport."""
         from anytree import PreOrderIter
 
-        node_specs = self.spec.get("nodes", {}) if self.spec else {}
+        node_specs = spec.get("nodes", {}) if spec else {}
         nodes = []
         for i, name in enumerate(compiled.node_names):
             nodes.append(
@@ -86,21 +92,21 @@ class Studio:
                 }
             )
         lights = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             if node.light is not None:
-                matrix = np.asarray(node.transformation_to(self.scene.root))
+                matrix = np.asarray(node.transformation_to(scene.root))
                 lights.append({"name": node.name,
                                "matrix": matrix.T.ravel().tolist(),
                                "spec": node_specs.get(node.name, {})})
         recorders = []
-        for node in PreOrderIter(self.scene.root):
+        for node in PreOrderIter(scene.root):
             auto_names = set()
             node_spec = node_specs.get(node.name, {})
             if node_spec.get("record"):
                 from pvtrace.cli.parse import auto_recorders
 
                 auto_names = set(auto_recorders(node.name, node_spec))
-            explicit = set((self.spec.get("recorders") or {})) if self.spec else set()
+            explicit = set((spec.get("recorders") or {})) if spec else set()
             for recorder in getattr(node, "recorders", []):
                 histograms = []
                 for hist in recorder.histograms:
@@ -126,7 +132,7 @@ class Studio:
                             and recorder.name not in explicit,
                 })
         return {"nodes": nodes, "lights": lights, "recorders": recorders,
-                "spec": self.spec}
+                "spec": spec}
 
 
 def _write_text(path, text):
-- 
2.43.0


From 382085651622954c3d3fabfad07f9980fda25673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 24/37] fix: studio wrote small numbers and words like yes so
 that they were read back as something else

---
 pvtrace/studio/server.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pvtrace/studio/server.py b/pvtrace/studio/server.py
index 28aa4f6..585dbab 100644
--- a/pvtrace/studio/server.py
+++ b/pvtrace/studio/server.py
@@ -352,8 +352,28 @@ SNIPPETS = {
 
 def _round_trip_yaml():
     from ruamel.yaml import YAML
-
+    from ruamel.yaml.representer import RoundTripRepresenter
+
+    class Representer(RoundTripRepresenter):
+        """Writes YAML 1.2 that PyYAML (YAML 1.1) reads as the same values."""
+
+        def represent_float(self, data):
+            node = super().represent_float(data)
+            if "e" in node.value and "." not in node.value:
+                node.value = node.value.replace("e", ".0e", 1)
+            return node
+
+        def represent_str(self, data):
+            node = super().represent_str(data)
+            tag = yaml.SafeLoader("").resolve(yaml.ScalarNode, data, (True, False))
+            if tag != node.tag:
+                node.style = "'"  # e.g. yes
+            return node
+
+    Representer.add_representer(float, Representer.represent_float)
+    Representer.add_representer(str, Representer.represent_str)
     ryaml = YAML()
+    ryaml.Representer = Representer
     ryaml.preserve_quotes = True
     return ryaml
 
-- 
2.43.0


From b27cf85659c7e84b45a40f7071ccb2f73ab6cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 25/37] fix: look_at pointed the wrong way for vectors that are
 not of unit length

---
 pvtrace/scene/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pvtrace/scene/node.py b/pvtrace/scene/node.py
index 017bcab..8ead4ae 100644
--- a/pvtrace/scene/node.py
+++ b/pvtrace/scene/node.py
@@ -51,7 +51,10 @@ class Node(NodeMixin, Transformable):
         [1] https://math.stackexchange.com/q/476311
         """
         a = np.array([0, 0, 1])  # +z direction
-        b = np.array(vector)  # direction we want to face
+        b = np.array(vector, dtype=float)  # direction we want to face
+        length = np.linalg.norm(b)
+        if length > 0.0:
+            b /= length
         c = np.dot(a, b)
         if np.isclose(c, -1.0):
             # Anti-parallel rotation can be done without computation
-- 
2.43.0


From c3883014d196afc6426f55ab5d356215af7ccbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 26/37] fix: components given by a coefficient only or by a
 spectrum only were refused

---
 pvtrace/cli/parse.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pvtrace/cli/parse.py b/pvtrace/cli/parse.py
index 2cab645..f54f2b0 100644
--- a/pvtrace/cli/parse.py
+++ b/pvtrace/cli/parse.py
@@ -259,12 +259,12 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "spectrum" in spec:
             spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Absorber(spectrum, name=name, hist=hist)
-        elif spectrum:
+        elif spectrum is not None:
             return Absorber(spectrum, name=name, hist=hist)
-        elif coefficient:
+        elif coefficient is not None:
             return Absorber(coefficient, name=name)
 
         raise ValueError("Unexpected absorber format.")
@@ -290,9 +290,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if "quantum-yield" in spec:
             quantum_yield = spec["quantum-yield"]
 
-        spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
+        spectrum = None
+        if "spectrum" in spec:
+            spectrum = parse_spectrum(spec["spectrum"], named_type="absorption")
 
-        if coefficient and (spectrum is not None):
+        if coefficient is not None and (spectrum is not None):
             spectrum[:, 1] = spectrum[:, 1] / numpy.max(spectrum[:, 1]) * coefficient
             return Scatterer(
                 spectrum,
@@ -301,7 +303,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif spectrum:
+        elif spectrum is not None:
             return Scatterer(
                 spectrum,
                 quantum_yield=quantum_yield,
@@ -309,7 +311,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Scatterer(
                 coefficient,
                 quantum_yield=quantum_yield,
@@ -341,9 +343,11 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
             if "quantum-yield" in spec["emission"]:
                 quantum_yield = spec["emission"]["quantum-yield"]
 
-        absorption_spectrum = parse_spectrum(
-            spec["absorption"]["spectrum"], named_type="absorption"
-        )
+        absorption_spectrum = None
+        if "spectrum" in spec["absorption"]:
+            absorption_spectrum = parse_spectrum(
+                spec["absorption"]["spectrum"], named_type="absorption"
+            )
 
         emission_spectrum = parse_spectrum(
             spec["emission"]["spectrum"], named_type="emission"
@@ -352,7 +356,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
         if emission_spectrum is None:
             raise ValueError("Luminophore must have an emission spectrum")
 
-        if coefficient and (absorption_spectrum is not None):
+        if coefficient is not None and (absorption_spectrum is not None):
             absorption_spectrum[:, 1] = (
                 absorption_spectrum[:, 1]
                 / numpy.max(absorption_spectrum[:, 1])
@@ -366,7 +370,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif absorption_spectrum:
+        elif absorption_spectrum is not None:
             return Luminophore(
                 absorption_spectrum,
                 emission=emission_spectrum,
@@ -375,7 +379,7 @@ def parse_v_1_0(spec: dict, working_directory: str) -> Scene:
                 name=name,
                 hist=hist,
             )
-        elif coefficient:
+        elif coefficient is not None:
             return Luminophore(
                 coefficient,
                 emission=emission_spectrum,
-- 
2.43.0


From 9fb9bdf92372125a9720c33f8177aea31d9283fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 27/37] fix: LSC could not be simulated, lost rays and repeated
 calls were not counted

DataFrame.append is gone from pandas, a second call of simulate failed, rays lost
by non-radiative absorption were left out and the counts were those of the first
call. A call that fails leaves the results of the earlier ones.
---
 pvtrace/device/lsc.py | 45 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index df5116c..e1cb64d 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,6 +1,7 @@
 from pvtrace.material.component import Absorber, Luminophore
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
+from pvtrace.light.ray import Ray
 from pvtrace.scene.node import Node
 from pvtrace.material.material import Material
 from pvtrace.material.utils import isotropic, cone, lambertian
@@ -12,7 +13,7 @@ from pvtrace.scene.renderer import MeshcatRenderer
 from pvtrace.material.surface import Surface, FresnelSurfaceDelegate
 from pvtrace.material.distribution import Distribution
 from pvtrace.algorithm import photon_tracer
-from dataclasses import asdict
+from dataclasses import asdict, fields
 import numpy as np
 import pandas as pd
 import functools
@@ -343,6 +344,8 @@ class LSC(object):
         # Simulate can be called multiple time to append rays to the store
         if self._store is None:
             store = {"entrance_rays": [], "exit_rays": []}
+        else:
+            store = {kind: list(rays) for kind, rays in self._store.items()}
 
         vis = self._renderer
         count = 0
@@ -350,7 +353,10 @@ class LSC(object):
             history = photon_tracer.follow(scene, ray, emit_method=emit_method)
             rays, events = zip(*history)
             store["entrance_rays"].append((rays[1], events[1]))
-            if events[-1] in (Event.ABSORB, Event.KILL):
+            if events[-1] in (Event.NONRADIATIVE, Event.REACT):
+                # ray is lost store path information where it was absorbed
+                store["exit_rays"].append((rays[-1], Event.ABSORB))
+            elif events[-1] == Event.KILL:
                 # final event is a lost store path information at final event
                 store["exit_rays"].append((rays[-1], events[-1]))
             elif events[-1] == Event.EXIT:
@@ -367,36 +373,37 @@ class LSC(object):
                 count += 1
                 progress(count)
 
-        self._store = store
         print("Tracing finished.")
         print("Preparing results.")
-        df = self._make_dataframe()
+        df = self._make_dataframe(store)
         df = self.expand_coords(df, "direction")
         df = self.expand_coords(df, "position")
         df = self.label_facets(df, *self.size)
-        self._df = df
 
-    def _make_dataframe(self):
+        # Keep the results together, the counts are those of the previous call
+        self._store, self._df, self._counts = store, df, None
+
+    def _make_dataframe(self, store):
 
         # to-do: Only need to process additional rays not whole dataframe! Optimise!
-        df = pd.DataFrame()
+        rows = []
 
         # Rays entering the scene
-        for ray, event in self._store["entrance_rays"]:
+        for ray, event in store["entrance_rays"]:
             rep = asdict(ray)
             rep["kind"] = "entrance"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
         # Rays exiting the scene
-        for ray, event in self._store["exit_rays"]:
+        for ray, event in store["exit_rays"]:
             rep = asdict(ray)
             rep["kind"] = "exit"
             rep["event"] = event.name.lower()
-            df = df.append(rep, ignore_index=True)
+            rows.append(rep)
 
-        self._df = df
-        return df
+        columns = [field.name for field in fields(Ray)] + ["kind", "event"]
+        return pd.DataFrame(rows, columns=columns)
 
     def expand_coords(self, df, column):
         """ Returns a dataframe with coordinate column expanded into components.
@@ -425,7 +432,7 @@ class LSC(object):
                 edf == pd.DataFrame({'position_x': [1], 'position_y': [2], 'position_z': [3]})
         
         """
-        coords = np.stack(df[column].values)
+        coords = np.array(df[column].tolist(), dtype=float).reshape(-1, 3)
         df["{}_x".format(column)] = coords[:, 0]
         df["{}_y".format(column)] = coords[:, 1]
         df["{}_z".format(column)] = coords[:, 2]
@@ -566,14 +573,10 @@ class LSC(object):
         return df.loc[want_kind & want_source & want_facets & want_events]["wavelength"]
 
     def counts(self):
-        df = self._df
-        if df is None:
-            df = self._make_dataframe()
-            df = self.expand_coords(df, "direction")
-            df = self.expand_coords(df, "position")
-            df = self.label_facets(df, *self.size)
+        if self._df is None:
+            raise ValueError("Run a simulation before calling this method.")
 
-        counts = self._make_counts(df)
+        counts = self._make_counts(self._df)
         return counts
 
     def summary(self):
-- 
2.43.0


From 26fad2d9ac07c888a3bd162dd488d1948f56cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 28/37] fix: LSC counted the rays of the near facet as those of
 the far facet

---
 pvtrace/device/lsc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index e1cb64d..7cf31de 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -454,8 +454,8 @@ class LSC(object):
         zmin, zmax = -0.5 * height, 0.5 * height
         df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
         df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
+        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
         df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
         df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
         return df
-- 
2.43.0


From b48ba49406b00631af630df09e570f740a7495b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 29/37] fix: specular air gap mirror let the rays through

---
 pvtrace/device/lsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 7cf31de..9e4a1d7 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -74,7 +74,7 @@ class AirGapMirror(FresnelSurfaceDelegate):
     def reflected_direction(self, surface, ray, geometry, container, adjacent):
         if not self.lsc._air_gap_mirror_info["lambertian"]:
             # Specular reflection
-            return super(AirGapMirror, self).transmitted_direction(
+            return super(AirGapMirror, self).reflected_direction(
                 surface, ray, geometry, container, adjacent
             )
         else:
-- 
2.43.0


From 0a6efeca6ce37978b1737b9ab06c5becb4eceb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 30/37] fix: LSC with a wavelength range and default components
 or with scatterers

---
 pvtrace/device/lsc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 9e4a1d7..9d7af16 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -1,4 +1,4 @@
-from pvtrace.material.component import Absorber, Luminophore
+from pvtrace.material.component import Absorber, Luminophore, Scatterer
 from pvtrace.light.light import Light, rectangular_mask
 from pvtrace.light.event import Event
 from pvtrace.light.ray import Ray
@@ -96,7 +96,8 @@ class LSC(object):
     def __init__(self, size, wavelength_range=None, n0=1.0, n1=1.5):
         super(LSC, self).__init__()
         if wavelength_range is None:
-            self.wavelength_range = np.arange(400, 800)
+            wavelength_range = np.arange(400, 800)
+        self.wavelength_range = wavelength_range
 
         self.size = size  # centimetres
         self.n0 = n0
-- 
2.43.0


From 3eb88bcb199f0530a630b469db1090f1f30e12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 31/37] fix: LSC counted killed rays and points beside the box
 as leaving by a facet

---
 pvtrace/device/lsc.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 9d7af16..17f8448 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -453,12 +453,29 @@ class LSC(object):
         xmin, xmax = -0.5 * length, 0.5 * length
         ymin, ymax = -0.5 * width, 0.5 * width
         zmin, zmax = -0.5 * height, 0.5 * height
-        df.loc[(np.isclose(df["position_x"], xmin, atol=EPS_ZERO)), "facet"] = "left"
-        df.loc[(np.isclose(df["position_x"], xmax, atol=EPS_ZERO)), "facet"] = "right"
-        df.loc[(np.isclose(df["position_y"], ymin, atol=EPS_ZERO)), "facet"] = "near"
-        df.loc[(np.isclose(df["position_y"], ymax, atol=EPS_ZERO)), "facet"] = "far"
-        df.loc[(np.isclose(df["position_z"], zmin, atol=EPS_ZERO)), "facet"] = "bottom"
-        df.loc[(np.isclose(df["position_z"], zmax, atol=EPS_ZERO)), "facet"] = "top"
+        bounds = {
+            "position_x": (xmin, xmax),
+            "position_y": (ymin, ymax),
+            "position_z": (zmin, zmax),
+        }
+        close = functools.partial(np.isclose, atol=EPS_ZERO)
+
+        # Points in the plane of a facet can lie beside the box
+        touching = pd.Series(True, index=df.index)
+        for column, (low, high) in bounds.items():
+            x = df[column]
+            touching &= x.between(low, high) | close(x, low) | close(x, high)
+
+        def on_facet(column, value):
+            return touching & close(df[column], value)
+
+        df["facet"] = None
+        df.loc[on_facet("position_x", xmin), "facet"] = "left"
+        df.loc[on_facet("position_x", xmax), "facet"] = "right"
+        df.loc[on_facet("position_y", ymin), "facet"] = "near"
+        df.loc[on_facet("position_y", ymax), "facet"] = "far"
+        df.loc[on_facet("position_z", zmin), "facet"] = "bottom"
+        df.loc[on_facet("position_z", zmax), "facet"] = "top"
         return df
 
     def _make_counts(self, df):
@@ -471,11 +488,14 @@ class LSC(object):
         all_components = {component.name for component in components}
         all_lights = {light.name for light in lights}
 
+        # Rays killed or absorbed where they touch a facet do not leave through it
+        crossing = {"reflect", "transmit"}
+
         # Count solar photons exiting
         solar_out = dict()
         for facet in {"left", "right", "near", "far", "top", "bottom"}:
             solar_out[facet] = self.spectrum(
-                facets={facet}, source=all_lights, kind="last"
+                facets={facet}, source=all_lights, kind="last", events=crossing
             ).shape[0]
 
         # Count solar photons entering
@@ -489,7 +509,7 @@ class LSC(object):
         lum_out = dict()
         for facet in {"left", "right", "near", "far", "top", "bottom"}:
             lum_out[facet] = self.spectrum(
-                facets={facet}, source=all_components, kind="last"
+                facets={facet}, source=all_components, kind="last", events=crossing
             ).shape[0]
 
         # Count luminescent photons entering
-- 
2.43.0


From 0dae920d1c2fef9a598d2b6a53c45ffd5bd6481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 32/37] fix: LSC could not be simulated again when making its
 scene had failed

---
 pvtrace/device/lsc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pvtrace/device/lsc.py b/pvtrace/device/lsc.py
index 17f8448..92b5455 100644
--- a/pvtrace/device/lsc.py
+++ b/pvtrace/device/lsc.py
@@ -164,6 +164,7 @@ class LSC(object):
             self._user_components = self._make_default_components()
         components = []
         for component_data in self._user_components:
+            component_data = dict(component_data)
             cls = component_data.pop("cls")
             coefficient = component_data.pop("coefficient")
             component = cls(coefficient, **component_data)
-- 
2.43.0


From a8ab59d97a6d5c3722e123d8c7649d32c77240af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 33/37] fix: studio page said nothing when a request failed

A request without an answer, or one answered with something other than
JSON, ended as an unhandled rejection: nothing was shown, and what a drag
or a field had displaced stayed displaced after a refusal.
---
 pvtrace/studio/static/app.js | 73 +++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 2d7d81a..4937021 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -114,16 +114,12 @@ gizmo.addEventListener("objectChange", async () => {
   const now = performance.now();
   if (now - lastRealtime < 150) return;
   lastRealtime = now;
-  await fetch("/api/patch", {
-    method: "POST",
-    headers: { "Content-Type": "application/json" },
-    body: JSON.stringify({
-      op: "move",
-      node: gizmo.object.userData.name,
-      world_position: gizmo.object.position.toArray(),
-    }),
+  const payload = await request("POST", "/api/patch", {
+    op: "move",
+    node: gizmo.object.userData.name,
+    world_position: gizmo.object.position.toArray(),
   });
-  startRun();
+  if (!payload.error) startRun();
 });
 scene3.add(gizmo);
 
@@ -1166,25 +1162,37 @@ docToggle.addEventListener("click", () => {
   applyDocumentVisibility();
 });
 
+// The server's answer; `error` says why when there is no usable one.
+async function request(method, url, body) {
+  try {
+    const response = await fetch(url, body === undefined ? { method } : {
+      method,
+      headers: { "Content-Type": "application/json" },
+      body: JSON.stringify(body),
+    });
+    const payload = await response.json();
+    if (response.ok || payload.error) return payload;
+    return { error: `The studio server answered with ${response.status}.` };
+  } catch (error) {
+    return { error: `No answer from the studio server (${error.message}).` };
+  }
+}
+
+function showError(message) {
+  docStatus.textContent = message;
+  docStatus.className = "err";
+}
+
 async function loadDocument() {
-  const response = await fetch("/api/document");
-  const payload = await response.json();
+  const payload = await request("GET", "/api/document");
+  if (payload.error) { showError(payload.error); return; }
   setDocumentText(payload.text);
   if (payload.text.trim()) applyDocument();
 }
 
 async function applyDocument() {
-  const response = await fetch("/api/document", {
-    method: "PUT",
-    headers: { "Content-Type": "application/json" },
-    body: JSON.stringify({ text: cm.getValue() }),
-  });
-  const payload = await response.json();
-  if (payload.error) {
-    docStatus.textContent = payload.error;
-    docStatus.className = "err";
-    return false;
-  }
+  const payload = await request("PUT", "/api/document", { text: cm.getValue() });
+  if (payload.error) { showError(payload.error); return false; }
   docStatus.textContent = "scene ok";
   docStatus.className = "";
   renderScene(payload.scene);
@@ -1192,17 +1200,12 @@ async function applyDocument() {
 }
 
 async function patch(operation) {
-  const response = await fetch("/api/patch", {
-    method: "POST",
-    headers: { "Content-Type": "application/json" },
-    body: JSON.stringify(operation),
-  });
-  const payload = await response.json();
+  const payload = await request("POST", "/api/patch", operation);
   if (payload.error) {
-    docStatus.textContent = payload.error;
-    docStatus.className = "err";
+    showError(payload.error);
     statusEl.textContent = payload.error;
     statusEl.className = "err";
+    if (lastScene) renderScene(lastScene); // undo what the edit displaced
     return false;
   }
   docStatus.textContent = "scene ok";
@@ -1219,8 +1222,7 @@ document.getElementById("apply").addEventListener("click", applyDocument);
 
 document.getElementById("save").addEventListener("click", async () => {
   if (!(await applyDocument())) return;
-  const response = await fetch("/api/save", { method: "POST" });
-  const payload = await response.json();
+  const payload = await request("POST", "/api/save");
   docStatus.textContent = payload.error ? payload.error : "saved";
   docStatus.className = payload.error ? "err" : "";
 });
@@ -1234,12 +1236,7 @@ editorPane.addEventListener("drop", async (event) => {
   const file = event.dataTransfer.files[0];
   if (!file) return;
   const content = await file.text();
-  const response = await fetch("/api/upload", {
-    method: "POST",
-    headers: { "Content-Type": "application/json" },
-    body: JSON.stringify({ name: file.name, content }),
-  });
-  const payload = await response.json();
+  const payload = await request("POST", "/api/upload", { name: file.name, content });
   docStatus.textContent = payload.error ? payload.error
     : `saved ${payload.saved} — reference it with "spectrum: file: ${payload.saved}"`;
   docStatus.className = payload.error ? "err" : "";
-- 
2.43.0


From 14a286e3441693b078c59cb6db3538ccef7d04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 34/37] fix: studio page's edits overtook each other

Each edit was sent at once and each answer rendered when it came, so the
server could make the edits in another order than the user, an older
answer could replace what a newer one showed, and lists of components
were built from what the page had shown. A text typed meanwhile could be
sent by an earlier click on apply.
---
 pvtrace/studio/static/app.js | 88 +++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 21 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 4937021..6d8f198 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -90,12 +90,14 @@ function syncNodeVisuals(name, source) {
 const gizmo = new TransformControls(camera, renderer.domElement);
 gizmo.setMode("translate");
 let dragStart = null;
+let realtimeMoved = false; // the server's document follows the drag
 gizmo.addEventListener("dragging-changed", (event) => {
   controls.enabled = !event.value;
   if (event.value && gizmo.object) {
     dragStart = gizmo.object.position.clone();
+    realtimeMoved = false;
   } else if (!event.value && gizmo.object && dragStart) {
-    if (gizmo.object.position.distanceTo(dragStart) > 1e-6) {
+    if (realtimeMoved || gizmo.object.position.distanceTo(dragStart) > 1e-6) {
       patch({
         op: "move",
         node: gizmo.object.userData.name,
@@ -114,12 +116,19 @@ gizmo.addEventListener("objectChange", async () => {
   const now = performance.now();
   if (now - lastRealtime < 150) return;
   lastRealtime = now;
-  const payload = await request("POST", "/api/patch", {
+  realtimeMoved = true;
+  const operation = {
     op: "move",
     node: gizmo.object.userData.name,
     world_position: gizmo.object.position.toArray(),
-  });
-  if (!payload.error) startRun();
+  };
+  const payload = await inTurn(() => request("POST", "/api/patch", operation));
+  if (payload.error) return;
+  if (!gizmo.dragging || !gizmo.object) { // no move on drop follows
+    setDocumentText(payload.text);
+    renderScene(payload.scene);
+  }
+  startRun();
 });
 scene3.add(gizmo);
 
@@ -708,13 +717,17 @@ function buildNodeFields(name) {
       .filter((c) => !attached.includes(c));
     const chips = document.createElement("div");
     chips.className = "chips";
+    const components = () => // once the edits before this one are made
+      spec().nodes?.[name]?.[geometry]?.material?.components || [];
     for (const component of attached) {
       const chip = document.createElement("span");
       chip.innerHTML = `${component}<b title="Detach">×</b>`;
       chip.querySelector("b").addEventListener("click", () =>
-        patch({ op: "set",
-                path: ["nodes", name, geometry, "material", "components"],
-                value: attached.filter((c) => c !== component) }));
+        patch(() => ({
+          op: "set",
+          path: ["nodes", name, geometry, "material", "components"],
+          value: components().filter((c) => c !== component),
+        })));
       chips.appendChild(chip);
     }
     hint("components");
@@ -722,9 +735,11 @@ function buildNodeFields(name) {
     if (available.length) {
       selectField("attach", "", ["", ...available], (value) => {
         if (value) {
-          patch({ op: "set",
-                  path: ["nodes", name, geometry, "material", "components"],
-                  value: [...attached, value] });
+          patch(() => ({
+            op: "set",
+            path: ["nodes", name, geometry, "material", "components"],
+            value: [...components().filter((c) => c !== value), value],
+          }));
         }
       });
     }
@@ -1123,9 +1138,11 @@ const cm = window.CodeMirror.fromTextArea(document.getElementById("editor"), {
   lineWrapping: false,
 });
 let settingText = false;
+let typed = false; // the editor holds text which was not handed in yet
 
 function setDocumentText(text) {
   settingText = true;
+  typed = false;
   const scroll = cm.getScrollInfo();
   cm.setValue(text);
   cm.scrollTo(scroll.left, scroll.top);
@@ -1183,23 +1200,49 @@ function showError(message) {
   docStatus.className = "err";
 }
 
-async function loadDocument() {
-  const payload = await request("GET", "/api/document");
-  if (payload.error) { showError(payload.error); return; }
-  setDocumentText(payload.text);
-  if (payload.text.trim()) applyDocument();
+// One edit after another: each is sent when the one before is answered,
+// so the server makes them in the user's order and no older answer can
+// replace what a newer one shows.
+let lastEdit = Promise.resolve();
+
+function inTurn(edit) {
+  const result = lastEdit.then(edit);
+  lastEdit = result.catch(() => {});
+  return result;
 }
 
-async function applyDocument() {
-  const payload = await request("PUT", "/api/document", { text: cm.getValue() });
+function loadDocument() {
+  return inTurn(async () => {
+    const payload = await request("GET", "/api/document");
+    if (payload.error) { showError(payload.error); return; }
+    setDocumentText(payload.text);
+    if (payload.text.trim()) await putDocument(payload.text);
+  });
+}
+
+function applyDocument() {
+  const text = typed ? cm.getValue() : null;
+  typed = false;
+  return inTurn(() => putDocument(text ?? cm.getValue()));
+}
+
+async function putDocument(text) {
+  const payload = await request("PUT", "/api/document", { text });
   if (payload.error) { showError(payload.error); return false; }
+  if (cm.getValue() === text) typed = false;
+  else if (!typed) setDocumentText(text);
   docStatus.textContent = "scene ok";
   docStatus.className = "";
   renderScene(payload.scene);
   return true;
 }
 
-async function patch(operation) {
+function patch(operation) {
+  return inTurn(() => sendPatch(
+    typeof operation === "function" ? operation() : operation));
+}
+
+async function sendPatch(operation) {
   const payload = await request("POST", "/api/patch", operation);
   if (payload.error) {
     showError(payload.error);
@@ -1222,7 +1265,7 @@ document.getElementById("apply").addEventListener("click", applyDocument);
 
 document.getElementById("save").addEventListener("click", async () => {
   if (!(await applyDocument())) return;
-  const payload = await request("POST", "/api/save");
+  const payload = await inTurn(() => request("POST", "/api/save"));
   docStatus.textContent = payload.error ? payload.error : "saved";
   docStatus.className = payload.error ? "err" : "";
 });
@@ -1236,7 +1279,8 @@ editorPane.addEventListener("drop", async (event) => {
   const file = event.dataTransfer.files[0];
   if (!file) return;
   const content = await file.text();
-  const payload = await request("POST", "/api/upload", { name: file.name, content });
+  const payload = await inTurn(() =>
+    request("POST", "/api/upload", { name: file.name, content }));
   docStatus.textContent = payload.error ? payload.error
     : `saved ${payload.saved} — reference it with "spectrum: file: ${payload.saved}"`;
   docStatus.className = payload.error ? "err" : "";
@@ -1244,7 +1288,9 @@ editorPane.addEventListener("drop", async (event) => {
 
 let debounce = null;
 cm.on("change", () => {
-  if (settingText || !reactive.checked) return;
+  if (settingText) return;
+  typed = true;
+  if (!reactive.checked) return;
   clearTimeout(debounce);
   debounce = setTimeout(async () => {
     if (await applyDocument()) startRun();
-- 
2.43.0


From 375fa77a0f6b524916faed0ed5ad5a9261cd9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 35/37] fix: studio page's heatmaps failed when the document
 was edited during a run

A bundle of the run was drawn with the edited document's recorders, and
the exception stopped the rest of the display.
---
 pvtrace/studio/static/app.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 6d8f198..ab2e91f 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -1079,8 +1079,9 @@ function refreshHeatmaps() {
   }
   for (const [name, data] of Object.entries(latest)) {
     const overlay = recorderOverlays[name];
-    if (overlay && overlay.heatIndex >= 0 && data.histograms[overlay.heatIndex]) {
-      const entry = data.histograms[overlay.heatIndex];
+    // The run's recorders need not be those of the edited document
+    const entry = data.histograms.find((h) => h.shape);
+    if (overlay?.canvas && entry) {
       drawHeatmapInto(overlay.canvas.getContext("2d"), 256, 256,
         entry.values, entry.shape);
       overlay.texture.needsUpdate = true;
-- 
2.43.0


From c6f9cd5b44e3b6fecc4ec614b287cefcf84d521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:48 +0000
Subject: [PATCH 36/37] fix: studio page said connected after an edit while the
 connection was lost

And stop threw while the connection was still being made.
---
 pvtrace/studio/static/app.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index ab2e91f..4e4323d 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -1254,8 +1254,7 @@ async function sendPatch(operation) {
   }
   docStatus.textContent = "scene ok";
   docStatus.className = "";
-  statusEl.textContent = "connected";
-  statusEl.className = "ok";
+  showConnection();
   setDocumentText(payload.text);
   renderScene(payload.scene);
   if (reactive.checked) startRun();
@@ -1305,11 +1304,17 @@ const runStatus = document.getElementById("run-status");
 const progressFill = document.getElementById("progress-fill");
 let socket = null;
 
+function showConnection() {
+  const connected = socket?.readyState === WebSocket.OPEN;
+  statusEl.textContent = connected ? "connected" : "disconnected";
+  statusEl.className = connected ? "ok" : "err";
+}
+
 function connect() {
   socket = new WebSocket(`ws://${location.host}/ws`);
-  socket.onopen = () => { statusEl.textContent = "connected"; statusEl.className = "ok"; };
+  socket.onopen = showConnection;
   socket.onclose = () => {
-    statusEl.textContent = "disconnected"; statusEl.className = "err";
+    showConnection();
     setTimeout(connect, 1500);
   };
   socket.onmessage = (event) => {
@@ -1352,6 +1357,7 @@ function startRun() {
 
 document.getElementById("run").addEventListener("click", startRun);
 document.getElementById("stop").addEventListener("click", () => {
+  if (!socket || socket.readyState !== WebSocket.OPEN) return;
   socket.send(JSON.stringify({ cmd: "stop" }));
 });
 
-- 
2.43.0


From 32c71af3ed728f0dfad70f36b42736522ba45c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 37/37] fix: studio page's recorder statistics stayed those of
 the first bundle

---
 pvtrace/studio/static/app.js | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pvtrace/studio/static/app.js b/pvtrace/studio/static/app.js
index 4e4323d..6f00563 100644
--- a/pvtrace/studio/static/app.js
+++ b/pvtrace/studio/static/app.js
@@ -460,6 +460,7 @@ const fieldsDiv = document.getElementById("inspector-fields");
 const actionsDiv = document.getElementById("inspector-actions");
 const binInfo = document.getElementById("bin-info");
 let inspectorPlots = [];
+let inspectorStats = null;
 
 for (const button of document.querySelectorAll("#segments button")) {
   button.addEventListener("click", () => {
@@ -536,6 +537,7 @@ function renderInspector() {
   fieldsDiv.innerHTML = "";
   actionsDiv.innerHTML = "";
   inspectorPlots = [];
+  inspectorStats = null;
   if (lastScene && !lastScene.spec) {
     hint("The studio server is older than this page — restart "
       + "pvtrace-cli studio and reload.");
@@ -881,10 +883,7 @@ function buildRecorderPlots(recorder) {
     statsHint.textContent = "run the simulation to collect statistics";
     return;
   }
-  statsHint.textContent =
-    `${stats.rays.toLocaleString()} rays · ${stats.crossings.toLocaleString()} crossings`
-    + ` · ⟨λ⟩ ${stats.mean_wavelength.toFixed(1)} nm`
-    + ` · ⟨θ⟩ ${(stats.mean_angle * 180 / Math.PI).toFixed(1)}°`;
+  inspectorStats = { hint: statsHint, name: recorder.name };
 
   meta.histograms.forEach((histMeta, index) => {
     const label = document.createElement("div");
@@ -913,7 +912,17 @@ function buildRecorderPlots(recorder) {
   drawInspectorPlots();
 }
 
+function showStats() {
+  const stats = inspectorStats && latest[inspectorStats.name];
+  if (!stats) return;
+  inspectorStats.hint.textContent =
+    `${stats.rays.toLocaleString()} rays · ${stats.crossings.toLocaleString()} crossings`
+    + ` · ⟨λ⟩ ${stats.mean_wavelength.toFixed(1)} nm`
+    + ` · ⟨θ⟩ ${(stats.mean_angle * 180 / Math.PI).toFixed(1)}°`;
+}
+
 function drawInspectorPlots() {
+  showStats();
   for (const plot of inspectorPlots) {
     const meta = histogramMeta[plot.name];
     const data = latest[plot.name];
-- 
2.43.0

