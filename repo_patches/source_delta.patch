From 97a175d462697fadb400785ef409b2a770a6636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 01/19] fix: DataSE copies the arrays it is given

reflect_delta=True rewrote the caller's delta array in place, and lists
could not be used at all.
---
 refellips/dataSE.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 50f3ba8..edc0cde 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -93,10 +93,11 @@ class DataSE(object):
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
-            self._wavelength = data[0]
-            self._aoi = data[1]
-            self._psi = data[2]
-            self._delta = data[3]
+            # copy, so that the arrays supplied by the caller aren't altered.
+            self._wavelength = np.array(data[0], dtype=float)
+            self._aoi = np.array(data[1], dtype=float)
+            self._psi = np.array(data[2], dtype=float)
+            self._delta = np.array(data[3], dtype=float)
 
         self._delta_flipped = False
         if reflect_delta:
-- 
2.43.0


From c6d94b05a15b9ba46d658911ed63aaff8da3ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 02/19] fix: DataSE(DataSE) keeps mask and delta convention,
 and doesn't alias

The copy lost the mask and the reflected-delta flag of its source, and
shared (and with reflect_delta=True, rewrote) the source's arrays.
---
 refellips/dataSE.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index edc0cde..a3fe0f1 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -85,11 +85,11 @@ class DataSE(object):
         elif isinstance(data, DataSE):
             self.name = data.name
             self.filename = data.filename
-            self.metadata = data.metadata
-            self._wavelength = data._wavelength
-            self._aoi = data._aoi
-            self._psi = data._psi
-            self._delta = data._delta
+            self.metadata = dict(data.metadata)
+            self._wavelength = np.array(data._wavelength)
+            self._aoi = np.array(data._aoi)
+            self._psi = np.array(data._psi)
+            self._delta = np.array(data._delta)
 
         # If a list or tuple, then assume its in format wavelength, AOI, psi, delta.
         elif isinstance(data, (list, tuple, np.ndarray)):
@@ -99,13 +99,15 @@ class DataSE(object):
             self._psi = np.array(data[2], dtype=float)
             self._delta = np.array(data[3], dtype=float)
 
-        self._delta_flipped = False
+        self._delta_flipped = isinstance(data, DataSE) and data._delta_flipped
         if reflect_delta:
             dmask = self._delta > 180
             self._delta[dmask] = 360 - self._delta[dmask]
             self._delta_flipped = True
 
         self.mask = np.ones_like(self._wavelength, dtype=bool)
+        if isinstance(data, DataSE):
+            self.mask = np.array(data.mask)
 
     def __len__(self):
         """Number of unmasked points in the dataset."""
-- 
2.43.0


From 883334dacb945012926dcd285d856c9c13cb2474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 03/19] fix: DataSE.load dropped rows when given an open file

The header sniffing consumed lines from the handle, then skiprows skipped
them a second time. refresh() always goes through a handle.
---
 refellips/dataSE.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index a3fe0f1..c24bd95 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -235,17 +235,19 @@ class DataSE(object):
 
         """
 
-        skip_lines = 0
         with possibly_open_file(f, "r") as text:
-            for i in range(100):  # check the first 100 lines
-                try:
-                    float(text.readline().split(self.delimiter)[0])
-                    break
-                except ValueError:
-                    skip_lines += 1
+            lines = text.readlines()
+
+        skip_lines = 0
+        for line in lines[:100]:  # check the first 100 lines
+            try:
+                float(line.split(self.delimiter)[0])
+                break
+            except ValueError:
+                skip_lines += 1
 
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
-            f, skiprows=skip_lines, delimiter=self.delimiter, encoding="utf8"
+            lines, skiprows=skip_lines, delimiter=self.delimiter
         ).T
 
     def refresh(self):
-- 
2.43.0


From 51e49bd94272633455c20ae2e6c89ac7073cfe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 04/19] fix: DataSE.load/refresh keep delta convention and
 clear the mask

A refreshed dataset was flagged as reflected but held raw delta values, and
DataSE().load() left a mask of the wrong length behind.
---
 refellips/dataSE.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index c24bd95..57b7745 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -64,6 +64,7 @@ class DataSE(object):
 
         self.delimiter = delimiter
         self.metadata = kwds
+        self._delta_flipped = False
         self._wavelength = np.zeros(0)
         self._aoi = np.zeros(0)
         self._psi = np.zeros(0)
@@ -99,11 +100,11 @@ class DataSE(object):
             self._psi = np.array(data[2], dtype=float)
             self._delta = np.array(data[3], dtype=float)
 
-        self._delta_flipped = isinstance(data, DataSE) and data._delta_flipped
+        if isinstance(data, DataSE):
+            self._delta_flipped = data._delta_flipped
         if reflect_delta:
-            dmask = self._delta > 180
-            self._delta[dmask] = 360 - self._delta[dmask]
             self._delta_flipped = True
+            self._reflect_delta()
 
         self.mask = np.ones_like(self._wavelength, dtype=bool)
         if isinstance(data, DataSE):
@@ -249,6 +250,13 @@ class DataSE(object):
         self._wavelength, self._aoi, self._psi, self._delta = np.loadtxt(
             lines, skiprows=skip_lines, delimiter=self.delimiter
         ).T
+        if self._delta_flipped:
+            self._reflect_delta()
+        self.mask = np.ones_like(self._wavelength, dtype=bool)
+
+    def _reflect_delta(self):
+        dmask = self._delta > 180
+        self._delta[dmask] = 360 - self._delta[dmask]
 
     def refresh(self):
         """
-- 
2.43.0


From a41cf823128bf82bfd7a10beeacb7b8fab6224eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 05/19] fix: EP4 time series with several locations

Only the last location of each time got a time (KeyError for the others),
and row labels that don't start at zero lost rows.
---
 refellips/dataSE.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index 57b7745..f09615f 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -310,9 +310,11 @@ def open_EP4file(fname, reflect_delta=False):
         print("Treating as time series:")
         output = []
         for t in df["Time"].drop_duplicates():
-            tdf = df[df["Time"] == t]
-            output += _loadEP4(tdf)  # not sure if this will work
-            output[-1]["time"] = t
+            tdf = df[df["Time"] == t].reset_index(drop=True)
+            tout = _loadEP4(tdf)
+            for op in tout:
+                op["time"] = t
+            output += tout
     else:
         output = _loadEP4(df)
         for op in output:
-- 
2.43.0


From 1dd4dee7b7af6d061dedf2b3224e069348ce03af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 06/19] fix: open_HORIBAfile on platforms other than Windows,
 and for Path

'ANSI' is not a codec outside Windows.
---
 refellips/dataSE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refellips/dataSE.py b/refellips/dataSE.py
index f09615f..af089f2 100644
--- a/refellips/dataSE.py
+++ b/refellips/dataSE.py
@@ -507,7 +507,7 @@ def open_HORIBAfile(
 
     """
 
-    name = fname[:-4]
+    name = str(fname)[:-4]
     metadata = {}
     linenodict = {}
     MDingest = False
@@ -545,7 +545,7 @@ def open_HORIBAfile(
         fname,
         skiprows=linenodict["DATA"] + 1,
         nrows=len(metadata["DATA"]) - 1,
-        encoding="ANSI",
+        encoding="latin-1",
         delimiter=" ",
         usecols=["nm", "Psi", "Delta"],
     )
-- 
2.43.0


From 9022fe4cb286d38d53f7633239936bd704f2be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 07/19] fix: RI no longer rescales the caller's wavelength
 array in place

---
 refellips/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index d7170f6..1212aae 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -92,7 +92,7 @@ class RI(ScattererSE):
                 # wavelength, RI, extinction coef.
                 # wavelength assumed to be in *nm*
                 self._wav, self._RI, self._EC = dispersion
-                self._wav *= 1000
+                self._wav = np.asarray(self._wav) * 1000
             else:
                 raise TypeError("format not recognised")
 
-- 
2.43.0


From 6ec3e33599a8d747b3715cd726401c65684c4421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 08/19] fix: RI keeps the name it derives from the path of a
 dispersion file

---
 refellips/dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 1212aae..0c13819 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -73,7 +73,7 @@ class RI(ScattererSE):
             if type(dispersion) is str or isinstance(dispersion, PurePath):
                 if not len(name):
                     # if there is no name get it from the path
-                    name = os.path.basename(dispersion).split(".")[0]
+                    self.name = os.path.basename(dispersion).split(".")[0]
 
                 vals = np.loadtxt(
                     dispersion, skiprows=1, delimiter=",", encoding="utf8"
-- 
2.43.0


From d7bcc091420d98acfe5c1808efc8a3b8f7f27eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 09/19] fix: RI tables whose wavelengths aren't ascending

np.interp silently returns nonsense for them.
---
 refellips/dispersion.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/refellips/dispersion.py b/refellips/dispersion.py
index 0c13819..a2aa75c 100644
--- a/refellips/dispersion.py
+++ b/refellips/dispersion.py
@@ -96,6 +96,13 @@ class RI(ScattererSE):
             else:
                 raise TypeError("format not recognised")
 
+        if self._wav is not None and np.size(self._wav) > 1:
+            # np.interp needs ascending wavelengths
+            order = np.argsort(self._wav)
+            self._wav = np.asarray(self._wav)[order]
+            self._RI = np.asarray(self._RI)[order]
+            self._EC = np.asarray(self._EC)[order]
+
     @property
     def parameters(self):
         return Parameters(name=self.name)
-- 
2.43.0


From 8c6a515bfeed3513ff62f654a19b8964d045ffa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 10/19] fix: circular_distance for angles more than one period
 apart

---
 refellips/objectiveSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index ce76f7d..6da4ea4 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -36,7 +36,7 @@ def circular_distance(angle1, angle2, period=360):
     Returns:
         float or np.ndarray: The shortest circular distance between the angles.
     """
-    diff = np.abs(angle1 - angle2)
+    diff = np.abs(angle1 - angle2) % period
     return np.minimum(diff, period - diff)
 
 
-- 
2.43.0


From d0272b52f0f2b1066546ede1156babf250aaf32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 11/19] fix: ObjectiveSE.logl includes model.logp and
 logp_extra as documented

---
 refellips/objectiveSE.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 6da4ea4..539adeb 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -416,7 +416,14 @@ class ObjectiveSE(BaseObjective):
         if np.isnan(logl).any():
             raise RuntimeError("ObjectiveSE.logl encountered a NaN.")
 
-        return -0.5 * np.sum(logl)
+        logl = -0.5 * np.sum(logl)
+
+        # extra probability terms
+        logl += self.model.logp()
+        if self.logp_extra is not None:
+            logl += self.logp_extra(self.model, self.data)
+
+        return logl
 
     def logpost(self, pvals=None):
         """
-- 
2.43.0


From e35e4f3490eb40018c77cb936d15189de3325c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 12/19] fix: ObjectiveSE.nll() with no arguments

The inherited version passes the nested Parameters object to setp, which
raises.
---
 refellips/objectiveSE.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/refellips/objectiveSE.py b/refellips/objectiveSE.py
index 539adeb..24d2198 100644
--- a/refellips/objectiveSE.py
+++ b/refellips/objectiveSE.py
@@ -425,6 +425,24 @@ class ObjectiveSE(BaseObjective):
 
         return logl
 
+    def nll(self, pvals=None):
+        """
+        Negative log-likelihood function
+
+        Parameters
+        ----------
+        pvals : array-like or refnx.analysis.Parameters
+            values for the varying or entire set of parameters
+
+        Returns
+        -------
+        nll : float
+            negative log-likelihood
+
+        """
+        self.setp(pvals)
+        return -self.logl()
+
     def logpost(self, pvals=None):
         """
         Calculate the log-probability of the curvefitting system
-- 
2.43.0


From cab017a4ed23f11a286c7a15dcd34edb553ee96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 13/19] fix: validate depolarisation_factor given to the
 StructureSE constructor

---
 refellips/structureSE.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 407b914..4135700 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -467,7 +467,7 @@ class StructureSE(Structure):
         self.data = [c for c in components if isinstance(c, ComponentSE)]
 
         self.ema = ema
-        self._depolarisation_factor = depolarisation_factor
+        self.depolarisation_factor = depolarisation_factor
 
         # we do this so micro-slicing can work
         self.overall_sld = self.overall_ri
-- 
2.43.0


From aaf6f04bb2aca828666abe756def384b903b91e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 14/19] fix: copying a StructureSE keeps its settings

---
 refellips/structureSE.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 4135700..034969d 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -475,7 +475,15 @@ class StructureSE(Structure):
     sld_profile = None
 
     def __copy__(self):
-        s = StructureSE(name=self.name, solvent=self._solvent)
+        s = StructureSE(
+            name=self.name,
+            solvent=self._solvent,
+            reverse_structure=self.reverse_structure,
+            contract=self.contract,
+            wavelength=self.wavelength,
+            ema=self.ema,
+            depolarisation_factor=self.depolarisation_factor,
+        )
         s.data = self.data.copy()
         return s
 
-- 
2.43.0


From a6fe89f74fcf7f0bb47c056ded4d1fb3a1d16a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 15/19] fix: solvate micro-sliced structures without an
 explicit solvent

With a non-default interface and solvent=None vfsolv was ignored.
---
 refellips/structureSE.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index 034969d..f12e6e3 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -846,7 +846,10 @@ class StructureSE(Structure):
             solv = solvent.complex(self.wavelength)
 
         if solv is None:
-            return slabs
+            # solvated by the backing medium (after any reversal)
+            backing = self.data[0 if self.reverse_structure else -1]
+            solv_slab = backing.slabs(structure=self)[-1]
+            solv = complex(solv_slab[1], solv_slab[2])
 
         vf = slabs[..., 4]
         N = slabs[..., 1] + slabs[..., 2] * 1j
-- 
2.43.0


From 62b1961b9b13886407f725ab9f8392aa5afe5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 16/19] fix: Delta_Psi_TMM doesn't overwrite the layers array
 it is given

---
 refellips/reflect_modelSE.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index cb1593f..a4ce97b 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -271,6 +271,7 @@ def Delta_Psi_TMM(AOI, layers, wavelength, delta_offset, reflect_delta=False):
     AOI = np.asarray(AOI, np.float64)
     AOI = AOI * (np.pi / 180)
 
+    layers = np.array(layers)
     layers[0, 2] = 0  # infinate medium cannot have an extinction coeff
     RIs = layers[:, 1] + layers[:, 2] * 1j
     thicks = layers[:, 0] / 10  # Ang to nm
-- 
2.43.0


From 3ff95a5aa7fa5b8bdc4a946fad6ab17bda935722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:44 +0000
Subject: [PATCH 17/19] fix: plot_structure leaves the structure as it found it

---
 tools/plottools.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tools/plottools.py b/tools/plottools.py
index 23f8e5d..e07c1c5 100644
--- a/tools/plottools.py
+++ b/tools/plottools.py
@@ -202,15 +202,21 @@ def plot_structure(
         colors = ["k"]
         alpha = 1
 
-    structure.reverse_structure = reverse_structure
-
-    for wav, col in zip(wavelengths, colors):
-        structure.wavelength = wav
-        ax.plot(
-            *structure.ri_profile(), color=col, alpha=alpha, label=f"{wav} nm"
-        )
-
-    structure.reverse_structure = False
+    saved = structure.reverse_structure, structure.wavelength
+
+    try:
+        structure.reverse_structure = reverse_structure
+
+        for wav, col in zip(wavelengths, colors):
+            structure.wavelength = wav
+            ax.plot(
+                *structure.ri_profile(),
+                color=col,
+                alpha=alpha,
+                label=f"{wav} nm",
+            )
+    finally:
+        structure.reverse_structure, structure.wavelength = saved
 
     if plot_labels:
         ax.set(ylabel="Refractive index", xlabel="Distance from substrate (Å)")
-- 
2.43.0


From c025eccfe149418c73ba5292fce8edb12444e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:59 +0000
Subject: [PATCH 18/19] fix: integer wavelength/AOI arrays don't truncate psi
 and delta

---
 refellips/reflect_modelSE.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refellips/reflect_modelSE.py b/refellips/reflect_modelSE.py
index a4ce97b..78b3bc7 100644
--- a/refellips/reflect_modelSE.py
+++ b/refellips/reflect_modelSE.py
@@ -376,8 +376,8 @@ class ReflectModelSE:
             self.parameters.pvals = np.array(p)
 
         wavelength, aois = wavelength_aoi.T
-        psi = np.zeros_like(wavelength)
-        delta = np.zeros_like(wavelength)
+        psi = np.zeros_like(wavelength, dtype=np.float64)
+        delta = np.zeros_like(wavelength, dtype=np.float64)
 
         unique_wavelengths = np.unique(wavelength)
         for wav in unique_wavelengths:
-- 
2.43.0


From 79fb3178e7da6909fefd5fea4db19d972f84d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:16 +0000
Subject: [PATCH 19/19] fix: StructureSE.plot puts the parameters back when
 drawing a sample fails

---
 refellips/structureSE.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/refellips/structureSE.py b/refellips/structureSE.py
index f12e6e3..9f3ca5e 100644
--- a/refellips/structureSE.py
+++ b/refellips/structureSE.py
@@ -762,14 +762,17 @@ class StructureSE(Structure):
 
         if samples > 0:
             saved_params = np.array(params)
-            # Get a number of chains, chosen randomly, and plot the model.
-            for pvec in self.parameters.pgen(ngen=samples):
-                params.pvals = pvec
-
-                ax.plot(*self.ri_profile(align=align), color="k", alpha=0.01)
-
-            # put back saved_params
-            params.pvals = saved_params
+            try:
+                # Get a number of chains, chosen randomly, and plot the model.
+                for pvec in self.parameters.pgen(ngen=samples):
+                    params.pvals = pvec
+
+                    ax.plot(
+                        *self.ri_profile(align=align), color="k", alpha=0.01
+                    )
+            finally:
+                # put back saved_params
+                params.pvals = saved_params
 
         ax.plot(*self.ri_profile(align=align), color="red", zorder=20)
         ax.set_ylabel("$RI$")
-- 
2.43.0

