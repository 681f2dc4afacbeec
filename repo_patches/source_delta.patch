From 19938baa1c7dea78c7f0625b9de7cab3bfe32154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 01/88] fix: keep per-property h_dependence lists of MultiProp
 instead of overwriting its units

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index f4c950d..043ba55 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -65,7 +65,7 @@ class MultiProp():
         if len(h_dependence)==1:
             self.h_dependence = {key:h_dependence[0] for key in self.names}
         elif len(h_dependence)==len(self.names):
-            self.units = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
+            self.h_dependence = {self.names[i]:h_dependence[i] for i in range(len(self.names))}
         else:
             raise ValueError("h_dependence shape not compatible with prop_names shape")
 
-- 
2.43.0


From ec9d0257999f01bbc4cc006815acdb9b69751685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 02/88] fix: pass kw_arguments through MultiProp.evaluate

---
 simim/galprops/galprops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/galprops.py b/simim/galprops/galprops.py
index 043ba55..601d97d 100644
--- a/simim/galprops/galprops.py
+++ b/simim/galprops/galprops.py
@@ -136,7 +136,7 @@ class MultiProp():
     def evaluate(self,target,use_all_inds=False,kw_remap={},kw_arguments={}):
         """See evaluate_all - identical functionality. This
         is just a wrapper to match the prop subclass"""
-        return self.evaluate_all(target,use_all_inds,kw_remap)
+        return self.evaluate_all(target,use_all_inds,kw_remap,kw_arguments)
 
 # Function should return an array of length n, where n is the number
 # of objects it is evaluated over, or should be of shape n x m
-- 
2.43.0


From 8dbc2dc2b9f5a23e40a787b304a88a12119b10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 03/88] fix: forget in-memory properties when unloaded, and
 restore the saved units of reloaded ones

---
 simim/_handlers.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 2bd3339..10ba237 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -164,6 +164,23 @@ class Handler():
                     property_value = property_value.flatten()
 
             self.properties_loaded[property_name] = property_value
+            self._read_saved_units(property_name)
+
+    def _read_saved_units(self, property_name):
+        """Set units and h dependence to those of the values saved on disk"""
+
+        with h5py.File(self.path,'r') as file:
+            attrs = file[self.groupname][property_name].attrs
+            self.properties_units[property_name] = attrs['units']
+            self.properties_h_dependence[property_name] = attrs['h dependence']
+
+    def _forget_property(self, property_name):
+        """Remove a property that's neither saved nor loaded anymore"""
+
+        self.properties_all = [key for key in self.properties_all if key != property_name]
+        self.properties_generated = [key for key in self.properties_generated if key != property_name]
+        self.properties_units.pop(property_name,None)
+        self.properties_h_dependence.pop(property_name,None)
 
     def unload_property(self, *property_names):
         """Remove a property from memory (does not erase from file on disk)
@@ -181,8 +198,15 @@ class Handler():
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
                 warnings.warn("Property {} is not loaded".format(property_name))
+                continue
+
+            self.properties_loaded.pop(property_name)
 
-            self.properties_loaded.pop(property_name, None)
+            if property_name in self.properties_saved:
+                self._read_saved_units(property_name)
+            else:
+                # Only existed in memory, so it's gone completely now
+                self._forget_property(property_name)
 
     def return_property(self, property_name, use_all_inds=False, in_h_units=None):
         """Load a property from file and return
-- 
2.43.0


From b9fb27747534a44e782e2d81f13884fbc1f1dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 04/88] fix: leave no trace of a deleted property in the
 handler, and keep mass_cuts out of its properties

---
 simim/_handlers.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 10ba237..87d8409 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -432,15 +432,9 @@ class Handler():
                 else:
                     del file[self.groupname][property_name]
 
-                    self.properties_saved = [key for key in file[self.groupname].keys()]
-                    properties_all_new = []
-                    for i in self.properties_all:
-                        if i != property_name:
-                            properties_all_new.append(i)
-                    self.properties_all = properties_all_new
-
-                    self.properties_units.pop(property_name,None)
-                    self.properties_h_dependence.pop(property_name,None)
+                    self.properties_saved = [key for key in self.properties_saved if key != property_name]
+                    self.properties_loaded.pop(property_name,None)
+                    self._forget_property(property_name)
 
     def set_property_range(self,property_name=None,pmin=-np.inf,pmax=np.inf,reset=True, in_h_units=None):
         """Set a range in a given property to be the active indices. If no
-- 
2.43.0


From 4d8322129c4b7ec8fd77447ed57cf13a06c066b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 05/88] fix: let make_property handle functions returning
 integers, and refuse to write when no halo is active

---
 simim/_handlers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 87d8409..a47629e 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -314,7 +314,7 @@ class Handler():
             inds = self.inds_all
         else:
             inds = self.inds_active
-            if write_to_disk and not np.all(inds==self.inds_all):
+            if write_to_disk and not np.array_equal(inds,self.inds_all):
                 raise ValueError("Cannot write to disk when using restricted index")
 
         # Handle renaming
@@ -347,8 +347,12 @@ class Handler():
             name = property.names[i]
             newname = names[i]
 
-            prop_values = np.empty(self.nhalos_all,dtype=all_values[i].dtype)
-            prop_values[:] = np.nan
+            dtype = all_values[i].dtype
+            if len(inds) < self.nhalos_all:
+                dtype = np.result_type(dtype,np.float32) # must be able to hold nan for inactive halos
+            prop_values = np.empty(self.nhalos_all,dtype=dtype)
+            if len(inds) < self.nhalos_all:
+                prop_values[:] = np.nan
             prop_values[inds] = all_values[i]
 
             self.properties_loaded[newname] = prop_values
-- 
2.43.0


From 01c77b8d8a58ab40a44dac43cb5c4d63bd033f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:11 +0000
Subject: [PATCH 06/88] fix: do not force overwritten properties into the data
 type of the old values

---
 simim/_handlers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index a47629e..92b3f61 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -390,7 +390,7 @@ class Handler():
 
         for property_name in property_names:
             if not property_name in self.properties_loaded.keys():
-                raise ValueError("Property {} not loaded, cannot write to disk")
+                raise ValueError("Property {} not loaded, cannot write to disk".format(property_name))
             else:
                 property_value = self.properties_loaded[property_name]
 
@@ -401,10 +401,10 @@ class Handler():
                     raise ValueError("Property {} already exists".format(property_name))
 
             with h5py.File(self.path,'a') as file:
-                if not property_name in file[self.groupname].keys():
-                    file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
-                else:
-                    file[self.groupname][property_name][:] = property_value
+                # Replace existing data entirely, its data type may not suit the new values
+                if property_name in file[self.groupname].keys():
+                    del file[self.groupname][property_name]
+                file[self.groupname].create_dataset(property_name,data=property_value,dtype=dtype)
 
                 file[self.groupname][property_name].attrs['units'] = self.properties_units[property_name]
                 file[self.groupname][property_name].attrs['h dependence'] = self.properties_h_dependence[property_name]
-- 
2.43.0


From cce6664b8ca62d453563da3c05bb3293ea328d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 07/88] fix: make SimHandler(init_snaps=True) work

---
 simim/siminterface/simhandler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 8702687..e5d7566 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -254,9 +254,9 @@ class SimHandler():
         self.key_units = key_units
         self.key_h_dependence = key_h_dependence
 
-        self.init_snaps = init_snaps
-        if self.init_snaps:
-            self.initialize_all_snaps(redo=True)
+        self.init_snaps = False
+        if init_snaps:
+            self.initialize_all_snaps()
 
     def initialize_all_snaps(self,remake=False):
         """Initialize SnapHandlers for each snapshot
-- 
2.43.0


From 2462df2917a87b3305285de2be9cc82ab30c6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 08/88] fix: hand the SimHandler's unit convention to the
 snapshots it opens

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index e5d7566..6b1c5af 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -446,7 +446,7 @@ class SimHandler():
         else:
             snap = snap_meta['index']
             redshift = snap_meta['redshift']
-            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h)
+            return SnapHandler(self.path+'/data.hdf5',snap,redshift,self.cosmo,self.box_edge_h,in_h_units=self.default_in_h_units)
 
     def get_snap_from_z(self,z):
         """Return a SnapHandler instance for the snapshot closest to a requested redshift
-- 
2.43.0


From 0896d172e95130a6f53803a95d47297591b8b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 09/88] fix: z_to_snap at the upper end and below the lower end
 of the redshift range

---
 simim/siminterface/simhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 6b1c5af..efb3d49 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -360,9 +360,10 @@ class SimHandler():
             The index number of the snapshot matching the requested redshift
         """
 
-        if z > np.amax(self.z_bins) or z < 0:
+        if z > self.z_bins[-1] or z < self.z_bins[0]:
             raise ValueError("z out of range")
         bin = np.digitize(z,self.z_bins)-1
+        bin = min(bin,len(self.z_bin_snaps)-1) # the last bin includes its upper edge
         bin_id = self.z_bin_snaps[bin]
 
         return bin_id
-- 
2.43.0


From 804393cfb59d0a0e7ca09f03ab60166c96685c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 10/88] fix: convert masses without little h to Msun/h in
 get_mass_index

---
 simim/siminterface/simhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index efb3d49..c4d1ce3 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -414,7 +414,7 @@ class SimHandler():
             if in_h_units:
                 mass_check = mass
             else:
-                mass_check = mass / self.h
+                mass_check = mass * self.h
             vals = mass_cuts['min_mass'] - mass_check
             vals = vals[vals>0]
             if len(vals) < 1:
-- 
2.43.0


From 87d5798fdbee980cf6cc7cd5b5652eda65fb802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 11/88] fix: include halos below the lowest tabulated mass cut
 when asked for in get_mass_index

---
 simim/siminterface/simhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c4d1ce3..c2cf0c2 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -420,7 +420,8 @@ class SimHandler():
             if len(vals) < 1:
                 index = 0
             elif len(vals) == len(mass_cuts):
-                index = mass_cuts['index'][-1]
+                # below the lowest cut - need everything
+                index = file["Snapshot {}".format(snap)]['mass'].shape[0]
             else:
                 index = mass_cuts['index'][len(vals)]
 
-- 
2.43.0


From 7d55bc7ede64c49a30f228fd0c991179c5b64af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 12/88] fix: refuse to overwrite native properties before
 touching the values in memory

---
 simim/siminterface/simhandler.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index c2cf0c2..0d86952 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -555,13 +555,6 @@ class SimHandler():
             print("\033[1m"+"Assigning props for Snapshot {}.  ".format(snap)+"\033[0m",end='\r')
             handler = self.get_snap(snap)
 
-            handler.make_property(property=property,
-                                  rename=rename,
-                                  kw_remap=kw_remap,
-                                  other_kws=other_kws,
-                                  overwrite=overwrite,
-                                  use_all_inds=use_all_inds)
-
             if write:
                 if isinstance(rename,str):
                     rename = [rename]
@@ -583,6 +576,14 @@ class SimHandler():
                                 else:
                                     warnings.warn("Property {} already exists, overwriting".format(name))
 
+            handler.make_property(property=property,
+                                  rename=rename,
+                                  kw_remap=kw_remap,
+                                  other_kws=other_kws,
+                                  overwrite=overwrite,
+                                  use_all_inds=use_all_inds)
+
+            if write:
                 handler.write_property(*names,overwrite=overwrite,dtype=writedtype)
                 handler.unload_property(*names)
         print("")
-- 
2.43.0


From 609008af60fb73cef537551f0442bac171391c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 13/88] fix: read back data paths containing spaces, and
 tolerate an empty root file

---
 simim/_paths.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/_paths.py b/simim/_paths.py
index 1761fe5..beb62ea 100644
--- a/simim/_paths.py
+++ b/simim/_paths.py
@@ -9,7 +9,9 @@ def _checkload_root_file(path):
     endpoint = None
     if os.path.exists(path):
         with open(path) as file:
-            endpoint = file.readlines()[0].replace('\n','')
+            lines = file.readlines()
+        if len(lines) > 0: # empty if setup was interrupted
+            endpoint = lines[0].replace('\n','')
     return endpoint
 
 def _checkload_path_file(path):
@@ -18,7 +20,7 @@ def _checkload_path_file(path):
     if os.path.exists(path):
         with open(path) as file:
             for line in file.readlines():
-                line_split = line.replace('\n','').split(' ')
+                line_split = line.replace('\n','').split(' ',1)
                 endpoint[line_split[0]] = line_split[1]
     return endpoint
 
-- 
2.43.0


From e540e35a42eafcf85a8576c19af93674dc2d95b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 14/88] fix: list snapshots in the formatted file only once
 they are in it

---
 simim/siminterface/_rawsiminterface.py | 27 ++++++++++++--------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index e7ca882..a42f2fa 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -421,7 +421,9 @@ class SimCatalogs():
                 for key in self.metadata.keys():
                     file.attrs[key] = self.metadata[key]
 
-                file.attrs['snapshots'] = self.snap_meta
+                # Snapshots are listed once they've been added (see below)
+                file.attrs['snapshots'] = self.snap_meta[:0]
+                file.attrs['number_snaps'] = 0
 
         # Cases 2 and 3 - need to first get the fields to write and figure out what snaps are called for and get current metadata
         # Then sort through the requested snaps and decide whether to overwrite them or not when duplicated
@@ -438,26 +440,12 @@ class SimCatalogs():
                     if other_fields_start[f][0][0] in data_fields:
                         self.other_fields[f] = other_fields_start[f]
                         self.all_fields[f] = other_fields_start[f]
-                
-                meta_snaps = file.attrs['snapshots']
-                meta_numsnaps = file.attrs['number_snaps']
 
             if overwrite:
                 snaps_to_do = np.concatenate((add_snaps,replace_snaps))
             else:
                 snaps_to_do = add_snaps
 
-            # Keeps old metadata - maybe I should be updating all metadata though since some things are 
-            # relative to other snaps
-            meta_snaps = meta_snaps[~np.isin(meta_snaps['index'], snaps_to_do)]
-            new_snaps = self.snap_meta[np.isin(self.snap_meta['index'], snaps_to_do)]
-            meta_snaps = np.concatenate((meta_snaps, new_snaps))
-            meta_snaps = np.sort(meta_snaps,order='index')
-
-            with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
-                file.attrs['snapshots'] = meta_snaps
-                file.attrs['number_snaps'] = len(meta_snaps)
-
         if len(snaps_to_do) == 0:
             warnings.warn("No new data has been added to file")
             return
@@ -571,6 +559,15 @@ class SimCatalogs():
 
                 snap_meta = self.snap_meta[self.snap_meta['index'] == snap]
                 snap_grp.attrs['metadata'] = snap_meta
+
+                # Keeps old metadata - maybe I should be updating all metadata though since some things are
+                # relative to other snaps
+                meta_snaps = file.attrs['snapshots']
+                meta_snaps = meta_snaps[meta_snaps['index'] != snap]
+                meta_snaps = np.concatenate((meta_snaps, snap_meta))
+                meta_snaps = np.sort(meta_snaps,order='index')
+                file.attrs['snapshots'] = meta_snaps
+                file.attrs['number_snaps'] = len(meta_snaps)
             
             # Delete raw data if requested
             if realtime_clean_raw:
-- 
2.43.0


From 6ad6e08abfac1ad118ba699b22d0c6ad450df59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 15/88] fix: remove raw files without handing their paths to a
 shell

---
 simim/siminterface/_rawsiminterface.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index a42f2fa..b50ecbb 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 import warnings
 
 from astropy.cosmology import FlatLambdaCDM
@@ -10,6 +11,13 @@ import numpy as np
 from simim._paths import _SimIMPaths
 from simim.siminterface._sims import _checksim
 
+def _remove(path):
+    """Remove a file, link, or directory with its contents, if it exists"""
+    if os.path.isdir(path) and not os.path.islink(path):
+        shutil.rmtree(path)
+    elif os.path.lexists(path):
+        os.remove(path)
+
 
 class Snapshot():
     """Class containing information for individual snapshots
@@ -337,7 +345,7 @@ class SimCatalogs():
 
         # Remove stuff
         file_path = os.path.join(self.path,'raw')
-        os.system("rm -r {}".format(file_path))
+        _remove(file_path)
 
     def format(self,remake=False,overwrite=False,basic=False,realtime_clean_raw=False,realtime_clean_raw_check=True):
         """Convert the unformatted simulation data into the uniform format used by 
@@ -574,6 +582,6 @@ class SimCatalogs():
                 rawsnapfiles = self._get_rawsnapfiles(snap)
                 for file in rawsnapfiles:
                     file_path = os.path.join(self.path,'raw',file)
-                    os.system("rm -r {}".format(file_path))
+                    _remove(file_path)
 
 
-- 
2.43.0


From 39706ceb841ec0aa3fd779a83002f0ea3bf1aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 16/88] fix: format snapshots with one or no halos

---
 simim/siminterface/_rawsiminterface.py | 3 ++-
 simim/siminterface/universemachine.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index b50ecbb..69ed3f7 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -522,7 +522,8 @@ class SimCatalogs():
                 if n_halos > 0:
                     subhalos[key] = subhalos[key][sorted_inds]
                 else:
-                    subhalos[key] = np.zeros((0,len(self.other_fields[key])))
+                    n_subkeys = len(self.other_fields[key])
+                    subhalos[key] = np.zeros((0,n_subkeys) if n_subkeys > 1 else 0)
 
             # Now we want to know the indices where various mass cuts can
             # be applied. We'll do it in steps of 0.1 dex
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index b601357..cdfe23c 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -232,7 +232,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('m','f'),('v','f'),('mp','f'),('vmp','f'),('r','f'),
                                     ('rank1','f'),('rank2','f'),('ra','f'),('rarank','f'),
                                     ('sm','f'),('icl','f'),('sfr','f'),('obs_sm','f'),('obs_sfr','f'),('obs_ssfr','f'),('smhm','f'),('obs_uv','f')])
-        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#')
+        data_raw = np.loadtxt(os.path.join(path,self.web_files[snapshot]), dtype=dtype_raw, comments='#', ndmin=1)
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-- 
2.43.0


From 1b7a3693193a82e1f276bf819095fa971c62a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 17/88] fix: wrap positions and read star formation rates of
 binary UniverseMachine catalogs

---
 simim/siminterface/universemachine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index cdfe23c..367cb60 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -136,8 +136,8 @@ class UniversemachineCatalogs(SimCatalogs):
             #VMP: Halo vmax at the time when peak mass was reached.
             'vmp':[('vmax_peak','f','km/s',0)],
 
-            #R: Halo radius (BN98 vir, comoving kpc/h)
-            'r':[('r','f','kpc/h',-1)],
+            #R: Halo radius (BN98 vir, comoving kpc/h, converted to Mpc/h)
+            'r':[('r','f','Mpc/h',-1)],
 
             #Rank1: halo rank in Delta_vmax (see UniverseMachine paper)
             'rank1':[('Rank1','f','None',0)],
@@ -271,7 +271,7 @@ class UniversemachineCatalogs(SimCatalogs):
                                     ('mp', 'f4'), ('m', 'f4'), ('v', 'f4'), ('r', 'f4'),
                                     ('rank1', 'f4'), ('rank2', 'f4'), ('ra', 'f4'),
                                     ('rarank', 'f4'), ('a_uv', 'f4'), ('sm', 'f4'),
-                                    ('icl', 'f4'), ('sfr', 'i4'), ('obs_sm', 'f4'),
+                                    ('icl', 'f4'), ('sfr', 'f4'), ('obs_sm', 'f4'),
                                     ('obs_sfr', 'f4'), ('obs_uv', 'f4'), ('empty', 'f4')],
                              align=True)
 
@@ -282,7 +282,7 @@ class UniversemachineCatalogs(SimCatalogs):
         subhalos = {}
         for key in fields:
             subhalos[key] = data_raw[key]
-        subhalos['pos'][:,0:3] % self.box_edge
+        subhalos['pos'][:,0:3] %= self.box_edge
         n_halos = len(data_raw)
 
         return subhalos, n_halos
-- 
2.43.0


From 82d03d95da13ff18cab8fde64296150dec0e3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 18/88] fix: convert Illustris black hole accretion rates, and
 read both half-mass-radius star formation rates

---
 simim/siminterface/illustris.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index d37573a..9fe5268 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -191,7 +191,7 @@ class IllustrisCatalogs(SimCatalogs):
                             'SubhaloSFRinMaxRad':[('sfr_maxr','f','Msun/yr',0)],
                             # Same as SubhaloSFR, but restricted to cells within
                             # twice the stellar half mass radius.
-                            'SubhaloSFRinHalfRad':[('sfr_2hr','f','Msun/yr',0)],
+                            'SubhaloSFRinRad':[('sfr_2hr','f','Msun/yr',0)],
 
                             # Mass-weighted average metallicity (Mz/Mtot, where
                             # Z = any element above He) of the star particles bound
@@ -253,9 +253,9 @@ class IllustrisCatalogs(SimCatalogs):
         def kpc_to_mpc(x,h):
             return x / 1000
         def illustris_bhmassunit(x,h):
-            return x * 0.978
+            # from 10^10 Msun/h / (0.978 Gyr/h) to Msun/h / (Gyr/h)
+            return x * 1e10 / 0.978
         self.transform_keys = {'SubhaloBHMass':power_10,
-                               'SubhaloBHMdot':power_10,
                                'SubhaloMass':power_10,
                                'SubhaloMassInHalfRad':power_10,
                                'SubhaloMassInHalfRadType':power_10,
-- 
2.43.0


From bda1400c742fb59d2452d38402ecf47ff370fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:29 +0000
Subject: [PATCH 19/88] fix: match snapshot metadata to the right snapshots
 when listings are not in order

---
 simim/siminterface/illustris.py       | 3 +--
 simim/siminterface/universemachine.py | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 9fe5268..1d11ef8 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -454,8 +454,7 @@ class IllustrisCatalogs(SimCatalogs):
         for i in snap_meta_raw:
             snap_meta_classes.append(Snapshot(i['number'],i['redshift'],self.metadata))
             numbers.append(i['number'])
-        snap_meta_classes = [snap_meta_classes[i] for i in np.argsort(numbers)]
-        
+
         order = np.argsort(numbers)
         snap_meta_classes = [snap_meta_classes[i] for i in order if numbers[i] in self.snaps]
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 367cb60..0cd7570 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -80,7 +80,9 @@ class UniversemachineCatalogs(SimCatalogs):
                 html_text = requests.get(self.webpage).text
                 web_files = [t for t in html_text.split(' ') if fnmatch(t, "*sfr_catalog_*")]
                 web_files = [t.split('"')[1] for t in web_files]
-                self.web_files = np.array(web_files)
+                # Order files with highest redshift first
+                order = np.argsort([float(t.split('_')[-1][:-4]) for t in web_files])
+                self.web_files = np.array(web_files)[order]
             except:
                 raise ValueError("Unable to access file names on {}".format(self.webpage))
             np.save(self.web_path,self.web_files)
-- 
2.43.0


From ae9c3f0581d9912b494c29c9d59b5195b5eb6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 20/88] fix: refuse to format snapshots without metadata before
 touching the formatted file

---
 simim/siminterface/_rawsiminterface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 69ed3f7..76355e9 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -391,6 +391,13 @@ class SimCatalogs():
             is set to True
         """
 
+        # Check that there is metadata to go with the snapshots
+        if self.metadata is None:
+            raise ValueError("No meta data for this simulation is available - run .download_meta")
+        no_meta = np.setdiff1d(self.snaps,self.snap_meta['index'])
+        if len(no_meta) > 0:
+            raise ValueError("No meta data for snapshots {} is available - run .download_meta".format(no_meta))
+
         # Confirm you really want to delete the stuff you spend two days downloading
         if realtime_clean_raw and realtime_clean_raw_check:
             print("This will delete raw files for {} after they are processed.".format(self.sim))
-- 
2.43.0


From 76be953c0efeb5f93ac15c2e0aa905f01f8d779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 21/88] fix: do not mistake interrupted downloads for complete
 raw files

---
 simim/siminterface/uchuu.py           | 5 ++++-
 simim/siminterface/universemachine.py | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index da962a7..95d4fda 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -374,5 +374,8 @@ class UchuuCatalogs(SimCatalogs):
                 if df > 3:
                     webpage = self.webpage + 'SFH/'
                 print("downloading snapshot {} of {} ({})".format(i+1,len(self.download_snaps),self.web_files[snap_id].replace('data1',f'data{df}')))
-                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),file_path.replace('data1',f'data{df}'))
+                # Only a complete download gets the name of the raw file
+                df_path = file_path.replace('data1',f'data{df}')
+                urlretrieve(webpage+self.web_files[snap_id].replace('data1',f'data{df}'),df_path+'.part')
+                os.replace(df_path+'.part',df_path)
 
diff --git a/simim/siminterface/universemachine.py b/simim/siminterface/universemachine.py
index 0cd7570..83fb005 100644
--- a/simim/siminterface/universemachine.py
+++ b/simim/siminterface/universemachine.py
@@ -413,7 +413,9 @@ class UniversemachineCatalogs(SimCatalogs):
             if self.sim == '_testbox':
                 shutil.copy(self.webpage.joinpath(self.web_files[snap]),file_path)
             else:
-                urlretrieve(self.webpage+self.web_files[snap],file_path)
+                # Only a complete download gets the name of the raw file
+                urlretrieve(self.webpage+self.web_files[snap],file_path+'.part')
+                os.replace(file_path+'.part',file_path)
 
 # Wrapper for back compatibility
 def universemachine_catalogs(*args, **kwargs):
-- 
2.43.0


From 11fdec439574d21025b93d7663946f1b0b4442c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 22/88] fix: count Uchuu's last datafile among the raw files of
 a snapshot

---
 simim/siminterface/uchuu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/siminterface/uchuu.py b/simim/siminterface/uchuu.py
index 95d4fda..4ba9094 100644
--- a/simim/siminterface/uchuu.py
+++ b/simim/siminterface/uchuu.py
@@ -242,7 +242,7 @@ class UchuuCatalogs(SimCatalogs):
 
     def _get_rawsnapfiles(self, snapshot):
         """Get path to a snapshot's raw file"""
-        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,12)]
+        rawsnapfiles = [self.web_files[snapshot].replace('data1',f'data{i}') for i in range(1,13)]
         return rawsnapfiles
 
     def download_meta(self, redownload=False):
-- 
2.43.0


From 9578e3a62382f924e5d282f6fec66ef69fff4856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 23/88] fix: build light cones that end exactly where a
 snapshot begins

---
 simim/lightcone/lcmaker.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 257055c..3c799c4 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -515,6 +515,15 @@ class LCMaker(GenericLCMaker):
 
         return LOS_unit, LC_transformation_matrix, buffer_coef
 
+    def _iterations(self,use_distance,usable_distance):
+        """Number of steps needed to cover use_distance, or zero
+        if the light cone doesn't fit in the simulation box"""
+
+        if usable_distance <= 0:
+            return 0
+        # Nothing needs to be covered when a snapshot only touches the redshift range
+        return max(1,int(np.ceil(use_distance / usable_distance)))
+
     def _initialize_pa(self,rng):
         """Generates a position angle
 
@@ -691,7 +700,7 @@ class LCMaker(GenericLCMaker):
                     buffer_distance = snap_meta['transverse_distance_max'] * pointing_buffer_coef[lc_ind]
                     in_box_distance = self.box_edge / np.amax(pointing_los[lc_ind])
 
-                    iters = int(np.ceil(use_distance / (in_box_distance-2*buffer_distance)))
+                    iters = self._iterations(use_distance, in_box_distance-2*buffer_distance)
 
                     # Expand the box by making copies if necessary
                     positions = np.copy(positions0)
@@ -710,7 +719,7 @@ class LCMaker(GenericLCMaker):
                             in_box_distance *= 2
                             box_size *= 2
 
-                            iters = int(np.ceil(use_distance / (in_box_distance-2*buffer_distance)))
+                            iters = self._iterations(use_distance, in_box_distance-2*buffer_distance)
                             copies_n *= int(2)
                             copies_n3d *= int(8)
                         elif iters <= 0:
-- 
2.43.0


From 0589f8d3ee5a2f200b4dfd73fd74d21f3c48a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 24/88] fix: add properties to light cones without any halos

---
 simim/lightcone/lcmaker.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 3c799c4..3513a65 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -161,7 +161,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
@@ -268,7 +270,9 @@ class GenericLCMaker():
 
                 shape = file['Indexing']['sim_indices'].shape
                 chunks = file['Indexing']['sim_indices'].chunks
-                if shape[0] < chunks[0]:
+                if shape[0] == 0:
+                    chunks = None
+                elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
                     for subkey in ['_x','_y','_z']:
-- 
2.43.0


From 3a51e79377f86d2f3f51929c6f67754c9d6e1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 25/88] fix: keep the data types of properties added to light
 cones

---
 simim/lightcone/lcmaker.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 3513a65..f1853cf 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -151,7 +151,12 @@ class GenericLCMaker():
             else:
                 new_lc_keys.append(key)
 
-        keys = np.sort(new_lc_keys)
+        keys = np.unique(new_lc_keys)
+
+        # Keep the data types of the simulation, single precision doesn't suit e.g. IDs
+        with h5py.File(os.path.join(self.sim_path,'data.hdf5'),"r") as sim_file:
+            snap_grp = sim_file['Snapshot {}'.format(self.snapshots_use[0]['index'])]
+            dtypes = {key:snap_grp['mass' if key == 'masscheck' else key].dtype for key in keys}
 
         # Note in LC files that we're adding properties
         for i in range(self.n):
@@ -166,7 +171,7 @@ class GenericLCMaker():
                 elif shape[0] < chunks[0]:
                     chunks = shape
                 for key in keys:
-                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks)
+                    file['Lightcone Full'].create_dataset(key,shape=shape,chunks=chunks,dtype=dtypes[key])
                     if key == 'masscheck':
                         file['Lightcone Full'][key].attrs['units'] = self.sim_handler.key_units['mass']
                         file['Lightcone Full'][key].attrs['h dependence'] = self.sim_handler.key_h_dependence['mass']
@@ -260,7 +265,7 @@ class GenericLCMaker():
             else:
                 new_lc_keys.append(key)
 
-        keys = np.sort(new_lc_keys)
+        keys = np.unique(new_lc_keys)
 
         # Note in LC files that we're adding properties
         for i in range(self.n):
-- 
2.43.0


From b178e1df2764d3ae411113245947005f3e59b2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 26/88] fix: mirror vector properties like positions, and add
 them to light spheres too

---
 simim/lightcone/lcmaker.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index f1853cf..9a60073 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -331,17 +331,13 @@ class GenericLCMaker():
                             # Trim values to the indices
                             lc_values = values[:,indexing['index']]
 
-                            # Get the matrices and do transformation
-                            los_matrix = lc_file.attrs['line of sight transformation matrix']
-                            pa_matrix = lc_file.attrs['position angle transformation matrix']
-                            lc_values = np.matmul(los_matrix,lc_values)
-                            lc_values = np.matmul(pa_matrix,lc_values)
-
+                            # Do transformation
+                            lc_values = self._to_lc_axes(lc_file,key,lc_values)
 
                             # Append the data
-                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[1]
-                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[2]
-                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
+                            lc_file['Lightcone Full'][key+'_y'][start:start+len(indexing)] = lc_values[1]
+                            lc_file['Lightcone Full'][key+'_z'][start:start+len(indexing)] = lc_values[2]
 
         # Note in LC files that we're done
         for i in range(self.n):
@@ -349,6 +345,25 @@ class GenericLCMaker():
                 file.attrs['status_extra_initialized'] = True
                 file.attrs['status_extra_completed'] = True
 
+    def _to_lc_axes(self,lc_file,key,values):
+        """Transform vectors from the axes of the simulation box to those of
+        a light cone, in the same way as the positions of the halos"""
+
+        # The box was mirrored along some of its axes
+        flips = lc_file.attrs['box flips']
+        values = flips[:,None] * values
+        if key == 'spin':
+            values = np.prod(flips) * values # axial vector
+
+        # Light spheres keep the orientation of the box
+        if 'line of sight transformation matrix' not in lc_file.attrs:
+            return values
+
+        values = np.matmul(lc_file.attrs['line of sight transformation matrix'],values)
+        values = np.matmul(lc_file.attrs['position angle transformation matrix'],values)
+
+        return values[[1,2,0]]
+
     def get_LCIterator(self,in_h_units=False):
         """Return a LCIterator object that can be used to iteratively analyse
         the light cones
-- 
2.43.0


From c6dfff7c59f9e9ddc59253370a42627857a98b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 27/88] fix: give centers of mass in the coordinates of the
 light cone

---
 simim/lightcone/lcmaker.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 9a60073..2fc45bf 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -315,6 +315,12 @@ class GenericLCMaker():
                         snap_grp[key+'_y'][:mass_index_final],
                         snap_grp[key+'_z'][:mass_index_final]])
 
+                    # Positions are tracked relative to the halo's
+                    if key == 'cm':
+                        for i,axis in enumerate(['_x','_y','_z']):
+                            values[i] -= snap_grp['pos'+axis][:mass_index_final]
+                        values = (values + self.box_edge/2) % self.box_edge - self.box_edge/2
+
                     for lc_ind in range(self.n):
                         # print(" "*40+"Working on light cone {}/{}          ".format(lc_ind+1,self.n), end='\r')
 
@@ -333,6 +339,9 @@ class GenericLCMaker():
 
                             # Do transformation
                             lc_values = self._to_lc_axes(lc_file,key,lc_values)
+                            if key == 'cm':
+                                for i,axis in enumerate(['_x','_y','_z']):
+                                    lc_values[i] += lc_file['Lightcone Full']['pos'+axis][start:start+len(indexing)]
 
                             # Append the data
                             lc_file['Lightcone Full'][key+'_x'][start:start+len(indexing)] = lc_values[0]
-- 
2.43.0


From b31d504c958dfe61fa4f728e10c97c9ce7a4287d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 28/88] fix: leave handler and arguments as they were when
 evaluating the evolution of a statistic

---
 simim/lightcone/lchandler.py | 55 ++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index ddc9032..7530acb 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -185,35 +185,36 @@ class LCHandler(Handler):
         redshift_bins = np.sort(redshift_bins)
         
         inds_active_save = np.copy(self.inds_active)
+        other_kws = dict(other_kws)
 
         vals = []
-        for bin in range(len(redshift_bins)-1):
-            self.set_property_range('redshift',
-                                    pmin=redshift_bins[bin],
-                                    pmax=redshift_bins[bin+1],
-                                    reset=True)
-
-            if zmin_kw:
-                other_kws['zmin'] = redshift_bins[bin]
-            if zmax_kw:
-                other_kws['zmax'] = redshift_bins[bin+1]
-            if volume_kw:
-                other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
-                                                    redshift_max = redshift_bins[bin+1],
-                                                    in_h_units=give_args_in_h_units)
-
-            vals.append(self.eval_stat(stat_function,
-                                       kwargs=kwargs,
-                                       kw_remap=kw_remap,
-                                       other_kws=other_kws,
-                                       use_all_inds=False,
-                                       give_args_in_h_units=give_args_in_h_units))
-
-            other_kws.pop('zmin',None)
-            other_kws.pop('zmax',None)
-
-        # Reset active inds
-        self.inds_active = np.copy(inds_active_save)
+        try:
+            for bin in range(len(redshift_bins)-1):
+                self.set_property_range('redshift',
+                                        pmin=redshift_bins[bin],
+                                        pmax=redshift_bins[bin+1],
+                                        reset=True)
+
+                if zmin_kw:
+                    other_kws['zmin'] = redshift_bins[bin]
+                if zmax_kw:
+                    other_kws['zmax'] = redshift_bins[bin+1]
+                if volume_kw:
+                    other_kws['volume'] = self.volume(redshift_min = redshift_bins[bin],
+                                                        redshift_max = redshift_bins[bin+1],
+                                                        in_h_units=give_args_in_h_units)
+
+                vals.append(self.eval_stat(stat_function,
+                                           kwargs=kwargs,
+                                           kw_remap=kw_remap,
+                                           other_kws=other_kws,
+                                           use_all_inds=False,
+                                           give_args_in_h_units=give_args_in_h_units))
+
+        finally:
+            # Reset active inds
+            self.inds_active = inds_active_save
+            self.nhalos_active = len(self.inds_active)
 
         return redshift_bins, vals
 
-- 
2.43.0


From ed087b6ba2628d87c9f6afa9c4cdfa6d3f0690ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 29/88] fix: volumes of light spheres, and of sub-volumes only
 if they fit in the light cone

---
 simim/lightcone/lchandler.py | 43 ++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 7530acb..7621cd1 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -134,10 +134,16 @@ class LCHandler(Handler):
         if shape == None:
             shape=self.metadata['shape']
         
-        if open_angle == None:
-            open_angle=self.metadata['open angle']
-        if aspect_ratio == None:
-            aspect_ratio=self.metadata['aspect ratio']
+        # Full spheres and parts of them have no open angle
+        sphere_areas = {'sphere':4*np.pi,'hemisphere':2*np.pi,'quarter':np.pi,'eighth':np.pi/2}
+        if shape in sphere_areas or self.metadata['shape'] in sphere_areas:
+            if shape != self.metadata['shape']:
+                raise ValueError("Shape not recognized")
+        else:
+            if open_angle == None:
+                open_angle=self.metadata['open angle']
+            if aspect_ratio == None:
+                aspect_ratio=self.metadata['aspect ratio']
 
         # Check everything
         if redshift_min < self.metadata['minimum redshift']:
@@ -145,24 +151,27 @@ class LCHandler(Handler):
         if redshift_max > self.metadata['maximum redshift']:
             raise ValueError("redshift_max higher than maximum of lightcone")
 
-        if shape not in ['box','circle']:
+        if shape in sphere_areas:
+            area = sphere_areas[shape]
+        elif shape not in ['box','circle']:
             raise ValueError("Shape not recognized")
 
-        if shape == self.metadata['shape'] or self.metadata['shape'] == 'box':
-            if open_angle > self.metadata['open angle']:
-                raise ValueError("openangle larger than lightcone")
-            if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
-                raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
-
-        if shape == 'box' and self.metadata['shape'] == 'circle':
-            radius2 = open_angle**2 + (open_angle*aspect_ratio)**2
-            if radius2 > self.metadata['open angle']:
+        # The lengths of the sides, a circle is as wide as it is high
+        elif shape == 'box':
+            if self.metadata['shape'] == 'box':
+                if open_angle > self.metadata['open angle']:
+                    raise ValueError("openangle larger than lightcone")
+                if open_angle*aspect_ratio > self.metadata['open angle']*self.metadata['aspect ratio']:
+                    raise ValueError("secondary angle (openangle * aspect) larger than lightcone")
+            elif open_angle**2 + (open_angle*aspect_ratio)**2 > self.metadata['open angle']**2:
                 raise ValueError("specified box does not fit in circular lightcone")
-
-        # Figure out the volume
-        if shape == 'box':
             area = open_angle * open_angle * aspect_ratio
+
         elif shape == 'circle':
+            if open_angle > self.metadata['open angle']:
+                raise ValueError("openangle larger than lightcone")
+            if self.metadata['shape'] == 'box' and open_angle > self.metadata['open angle']*self.metadata['aspect ratio']:
+                raise ValueError("openangle larger than short side of lightcone")
             area = np.pi * (open_angle/2)**2
 
         v2 = self.cosmo.comoving_volume(redshift_max).value
-- 
2.43.0


From 2667e22c36abde6c788a25bed58578ff86dd8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 30/88] fix: make LCIterator work with light spheres

---
 simim/lightcone/lchandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 7621cd1..cc04c3d 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -545,8 +545,8 @@ class LCIterator():
             print("No lightcone numbers specified, initializing all {} light cones in {}/{}".format(len(numbers),sim,name))
         
         # Need these for iteration
-        self.n_lcs = len(numbers)
         self.lc_numbers = np.array(numbers,ndmin=1)
+        self.n_lcs = len(self.lc_numbers)
 
         # Load all of the handlers as a dictionary
         self.lc_handlers = {}
@@ -560,9 +560,10 @@ class LCIterator():
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
         for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
-            setattr(self,attr,getattr(ref_lc,attr))
+            # light spheres don't have an open angle
+            setattr(self,attr,getattr(ref_lc,attr,None))
             for i_lc in self.lc_numbers[1:]:
-                if getattr(self.lc_handlers[str(i_lc)],attr) != getattr(self,attr):
+                if getattr(self.lc_handlers[str(i_lc)],attr,None) != getattr(self,attr):
                     if self.require_consistent:
                         raise ValueError("Attribute {} does not match for light cones {} and {}".format(attr, self.lc_numbers[0],i_lc))
                     else:
-- 
2.43.0


From 60571428e5145b5be4118a373cf9174800a104df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 31/88] fix: buffer light cones against all faces of the
 simulation box

---
 simim/lightcone/lcmaker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 2fc45bf..8d134bf 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -525,10 +525,11 @@ class LCMaker(GenericLCMaker):
             LOS_unit = LOS_vec/np.linalg.norm(LOS_vec)
 
             # Now test that there's enough room in the box for this thing...
-            angles = np.arctan([LOS_unit[1]/LOS_unit[0], LOS_unit[2]/LOS_unit[0], LOS_unit[2]/LOS_unit[1],
-                                LOS_unit[0]/LOS_unit[1], LOS_unit[0]/LOS_unit[2], LOS_unit[1]/LOS_unit[2]])
-
-            buffer_coef = 1.01 * np.tan(openradius) / np.sin(np.amin(angles)) # 1.01 is just to provide some padding
+            # The buffer has to clear every face of the box, whatever the
+            # position angle, and the curved front of the light cone
+            buffer_coef = (np.tan(openradius) * np.amax(np.sqrt(1-LOS_unit**2) / LOS_unit)
+                           + 1 - np.cos(openradius))
+            buffer_coef *= 1.01 # 1.01 is just to provide some padding
 
             max_distance = np.amax(self.snapshots_use['transverse_distance_max'])
             buffer_distance_max = buffer_coef * max_distance
-- 
2.43.0


From ac8526883ac36828c6cd425b4a00fcb7ad530fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 32/88] fix: leave out halos behind the observer of a light
 cone

---
 simim/lightcone/lcmaker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simim/lightcone/lcmaker.py b/simim/lightcone/lcmaker.py
index 8d134bf..838e675 100644
--- a/simim/lightcone/lcmaker.py
+++ b/simim/lightcone/lcmaker.py
@@ -797,8 +797,12 @@ class LCMaker(GenericLCMaker):
                         iter_max_distance = start_distance + (iter_ind+1)*use_distance/iters
                         iter_max_distance = np.amin([iter_max_distance,end_distance])
 
+                        # Near the observer the buffer reaches behind them
+                        los_distances = iter_position[:,0] + start_distance + iter_ind*use_distance/iters - buffer_distance
+
                         indices2 = np.where((candidate_distances < iter_max_distance)
-                                            & (candidate_distances >= iter_min_distance))
+                                            & (candidate_distances >= iter_min_distance)
+                                            & (los_distances > 0))
 
                         selected_indices = np.intersect1d(indices1,indices2)
                         selected_distances = candidate_distances[selected_indices]
-- 
2.43.0


From 61ba2022c938b046738a8f3b5ddb6672a6203ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 33/88] fix: light cones of different shapes are not consistent

---
 simim/lightcone/lchandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index cc04c3d..1fffd9f 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -559,7 +559,7 @@ class LCIterator():
 
         # Check for consistency of metadata
         ref_lc = self.lc_handlers[str(self.lc_numbers[0])]
-        for attr in ['cosmo','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
+        for attr in ['cosmo','shape','open_angle','aspect_ratio','minimum_redshift','maximum_redshift']:
             # light spheres don't have an open angle
             setattr(self,attr,getattr(ref_lc,attr,None))
             for i_lc in self.lc_numbers[1:]:
-- 
2.43.0


From 6bd20d3ab21e3a7cc8905cc3cd37858d0fd891ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 34/88] fix: keep the geometry of grids in floats, so that
 cropping and scaling integer ones moves the centers

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 84e099e..2b95ac7 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -128,18 +128,18 @@ class Grid():
         self.n_objects = 0
 
         # Handle center_point inputs:
-        self.center_point = np.array(center_point,ndmin=1,copy=True)
+        self.center_point = np.array(center_point,ndmin=1,copy=True,dtype=float)
         self.n_dimensions = len(self.center_point)
 
         # Handle side_length inputs:
-        self.side_length = np.array(side_length,ndmin=1,copy=True)
+        self.side_length = np.array(side_length,ndmin=1,copy=True,dtype=float)
         if len(self.side_length) == 1:
             self.side_length = np.ones(self.n_dimensions)*self.side_length[0]
         if len(self.side_length) != self.n_dimensions:
             raise ValueError("side_length don't match data dimensionality")
 
         # Handle pixel_size inputs
-        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True)
+        self.pixel_size = np.array(pixel_size,ndmin=1,copy=True,dtype=float)
         if len(self.pixel_size) != self.n_dimensions:
             if len(self.pixel_size) == 1:
                 self.pixel_size = np.ones(self.n_dimensions)*self.pixel_size[0]
-- 
2.43.0


From 4fbd3e1d65503c290e0e9dc5814d61876e468021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 35/88] fix: put edges of axes half way between the centers,
 and allow grids one pixel wide

---
 simim/map/gridder.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2b95ac7..da726f9 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -16,10 +16,14 @@ from matplotlib import animation
 ###############################################################################
 ##### SECTION 0: Helper Functions #############################################
 ###############################################################################
-def _axis_edges(ax):
-    """Given bin centers (ax) along an axis return the bin edges"""
+def _axis_edges(ax,delta=1.):
+    """Given bin centers (ax) along an axis return the bin edges. The width 
+    of the bin has to be given as delta if there is only one of them"""
+    if len(ax) == 1:
+        return np.array([ax[0]-delta/2, ax[0]+delta/2])
+
     diff = np.diff(ax)
-    newax = ax[:-1] + diff
+    newax = ax[:-1] + diff/2
     newax = np.concatenate(([ax[0]-diff[0]/2], newax, [ax[-1]+diff[-1]/2]))
     return newax
     
@@ -190,7 +194,7 @@ class Grid():
             self.axes.append(axis)
 
             self.fourier_axes_centers.append(np.fft.fftshift(np.fft.fftfreq(self.n_pixels[i],self.pixel_size[i])))
-            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i]))
+            self.fourier_axes.append(_axis_edges(self.fourier_axes_centers[i],1/self.pixel_size[i]))
 
         self.fourier_space = np.zeros(self.n_dimensions,dtype=bool)
 
@@ -318,7 +322,7 @@ class Grid():
                     new_axes_centers[i] = new_axes[i][:-1] + new_pixel_size[i]/2
 
                     new_fourier_axes_centers[i] = np.fft.fftshift(np.fft.fftfreq(new_n_pixels[i],new_pixel_size[i]))
-                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i])
+                    new_fourier_axes[i] = _axis_edges(new_fourier_axes_centers[i],1/new_pixel_size[i])
 
         # Won't pad properties array:
         pad_full.append((0,0))
@@ -394,7 +398,7 @@ class Grid():
         self.side_length[ax] = np.ptp(self.axes[ax])
         self.center_point[ax] = np.min(self.axes[ax]) + self.side_length[ax]/2
         self.fourier_axes_centers[ax] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[ax],self.pixel_size[ax]))
-        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax])
+        self.fourier_axes[ax] = _axis_edges(self.fourier_axes_centers[ax],1/self.pixel_size[ax])
 
 
     # Should expand this method to support linear transformations
@@ -1216,7 +1220,7 @@ class Grid():
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi])
+            self.fourier_axes[axi] = _axis_edges(self.fourier_axes_centers[axi],1/self.pixel_size[axi])
 
 
     def collapse_dimension(self,ax,in_place=True,weights=None,mode='average'):
-- 
2.43.0


From 28fa22a8f2e724858cc63031be4ab676fee495e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 36/88] fix: pad axes other than the leading ones of a grid

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index da726f9..8fe699c 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -310,7 +310,7 @@ class Grid():
                         pad_full.append((0,0))
                         unpad_full.append((-pad[i_pad],-pad[i_pad]))
 
-                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[ax[i]]
+                    new_n_pixels[i] = self.n_pixels[i] + 2*pad[i_pad]
                     if self.fourier_space[i]:
                         new_side_length[i] = self.side_length[i]
                         new_pixel_size[i] = self.side_length[i] / new_n_pixels[i]
-- 
2.43.0


From 80cffae83dc2e8ca91a19e3d809de814627d1214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 37/88] fix: refuse to crop to limits between two cell centers
 before touching the grid

---
 simim/map/gridder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 8fe699c..5ed4cc5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -385,7 +385,7 @@ class Grid():
         if max <= min:
             raise ValueError("max must be greater than min")
         
-        if np.all(self.axes_centers[ax]>max) or np.all(self.axes_centers[ax]<min):
+        if not np.any((self.axes_centers[ax]>=min) & (self.axes_centers[ax]<=max)):
             raise ValueError("No cells within specified limits")
 
         # Crop the grid
-- 
2.43.0


From 430f0943361c0cf14daa52c4f16124ead3ff4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 38/88] fix: scale the axes asked for, about the center if told
 so, and keep the names of their units whole

---
 simim/map/gridder.py | 53 +++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 5ed4cc5..d5b21ed 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -155,12 +155,12 @@ class Grid():
             self.axunits = np.array([None for i in range(self.n_dimensions)])
             self.fourier_axunits = np.array([None for i in range(self.n_dimensions)])
         else:
-            self.axunits = np.array(axunits,ndmin=1,copy=True)
+            self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
                 self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
-            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1)
+            self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
 
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
@@ -436,39 +436,36 @@ class Grid():
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
-        for i in ax:
-            if scalecenter:
-                self.center_point[i] *= factor[i]
-            self.side_length[i] *= factor[i]
-            self.pixel_size[i] *= factor[i]
-
-            # Handle units inputs:
-            if axunits is None:
-                self.axunits[i] = None
-                self.fourier_axunits[i] = None
-            elif axunits == 'same':
-                self.axunits[i] = self.axunits[i]
-                self.fourier_axunits[i] = self.fourier_axunits[i]
-            elif len(np.array(axunits,ndmin=1,copy=True))==1:
-                self.axunits[i] = axunits
-                self.fourier_axunits[i] = axunits+'^-1'
-            elif len(np.array(axunits,ndmin=1,copy=True))==len(ax):
-                self.axunits[i] = axunits[i]
-                self.fourier_axunits[i] = axunits[i]+'^-1'
-            else:
+        # Handle units inputs:
+        if not isinstance(axunits,str) or axunits != 'same':
+            axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
+            if len(axunits) == 1:
+                axunits = [axunits[0] for i in ax]
+            elif len(axunits) != len(ax):
                 raise ValueError('length of axunits must be 1 or match the length of ax')
 
+        for j,i in enumerate(ax):
+            center = self.center_point[i]
+            if scalecenter:
+                self.center_point[i] *= factor[j]
+            self.side_length[i] *= factor[j]
+            self.pixel_size[i] *= factor[j]
+
+            if not isinstance(axunits,str):
+                self.axunits[i] = axunits[j]
+                self.fourier_axunits[i] = axunits[j]+'^-1' if axunits[j] is not None else None
+
             # Set up the grid - make sure the side length is compatible with
             # number of pixels
             if scalecenter:
-                self.axes[i] = self.axes[i]*factor[i]
-                self.axes_centers[i] = self.axes_centers[i]*factor[i]
+                self.axes[i] = self.axes[i]*factor[j]
+                self.axes_centers[i] = self.axes_centers[i]*factor[j]
             else:
-                self.axes[i] = (self.axes[i]-self.center[i])*factor[i] + self.center[i]
-                self.axes_centers[i] = (self.axes_centers[i]-self.center[i])*factor[i] + self.center[i]
+                self.axes[i] = (self.axes[i]-center)*factor[j] + center
+                self.axes_centers[i] = (self.axes_centers[i]-center)*factor[j] + center
 
-            self.fourier_axes[i] = self.fourier_axes[i]/factor[i]
-            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[i]
+            self.fourier_axes[i] = self.fourier_axes[i]/factor[j]
+            self.fourier_axes_centers[i] = self.fourier_axes_centers[i]/factor[j]
 
 
     def copy_axes(self,n_properties=1):
-- 
2.43.0


From 1e67c341e5a4362203795047860e3b121eec9b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 39/88] fix: keep the units of a grid in step with its
 properties when some are added, left out or summed

---
 simim/map/gridder.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d5b21ed..56bacd4 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -165,7 +165,7 @@ class Grid():
         if gridunits is None:
             self.gridunits = np.array([None for i in range(self.n_properties)])
         else:
-            self.gridunits = np.array(gridunits,ndmin=1,copy=True)
+            self.gridunits = np.array(gridunits,ndmin=1,copy=True,dtype=object)
             if len(self.gridunits) == 1:
                 self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
             if len(self.gridunits) != self.n_properties:
@@ -474,15 +474,23 @@ class Grid():
         Parameters
         ----------
         n_properties : int
-            The number of properties to include in the new grid
+            The number of properties to include in the new grid. The units of
+            the properties are carried over if this matches the number of
+            properties of this grid, or if they are all in the same units.
 
         """
+        gridunits = None
+        if n_properties == self.n_properties:
+            gridunits = np.copy(self.gridunits)
+        elif all(u == self.gridunits[0] for u in self.gridunits):
+            gridunits = [self.gridunits[0] for i in range(n_properties)]
+
         grid_copy = Grid(n_properties=n_properties,
                           center_point=np.copy(self.center_point),
                           side_length=np.copy(self.side_length),
                           pixel_size=np.copy(self.pixel_size),
                           axunits=np.copy(self.axunits),
-                          gridunits=np.copy(self.gridunits))
+                          gridunits=gridunits)
         
         return grid_copy
 
@@ -501,6 +509,7 @@ class Grid():
         n_properties = len(properties)
 
         grid_copy = self.copy_axes(n_properties)
+        grid_copy.gridunits = self.gridunits[properties]
         
         if self.grid_active:
             grid_copy.grid = np.copy(self.grid[...,tuple(properties)])
@@ -571,6 +580,7 @@ class Grid():
 
             self.grid = np.concatenate((self.grid,value),axis=-1)
             self.n_properties += value.shape[-1]
+            self.gridunits = np.concatenate((self.gridunits,[None for i in range(value.shape[-1])]))
 
         # Different behavior if grid isn't activated yet
         if not self.grid_active:
@@ -578,6 +588,7 @@ class Grid():
                 raise ValueError("data array for this Grid has not been initialized, cannot add new values in property array -- use add_new_prop(value=None) to add an empty new property without initializing grid")
             else:
                 self.n_properties += 1
+                self.gridunits = np.concatenate((self.gridunits,[None]))
 
 
 
-- 
2.43.0


From 26cbbeaa0544e57b59a0ed4a28d296398bca7a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 40/88] fix: add an empty property to a grid when told to make
 a new one from no objects

---
 simim/map/gridder.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 56bacd4..8c9ab01 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -623,13 +623,12 @@ class Grid():
         
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                positions = positions.reshape((positions.shape[0],1))
-
-                if new_props:
-                    new_n_properties = values.shape[1]
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
-                    self.add_new_prop(new_grid)
+            if new_props:
+                new_n_properties = 1
+                if values is not None and np.ndim(values) > 1:
+                    new_n_properties = np.shape(values)[1]
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[new_n_properties])))
+                self.add_new_prop(new_grid)
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
@@ -722,10 +721,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.add_new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
@@ -885,10 +883,9 @@ class Grid():
 
         # If the positions array is empty don't need to do much
         if len(positions) == 0:
-            if positions.ndim == 1:
-                if new_prop:
-                    new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
-                    self.new_prop(new_grid)
+            if new_prop:
+                new_grid = np.zeros(np.concatenate((self.n_pixels,[1])))
+                self.add_new_prop(new_grid)
             
             return
 
-- 
2.43.0


From 368e3fb4cdc4463a679486299b641928bbd7c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 41/88] fix: accept positions given as integers

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 8c9ab01..f000636 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -632,7 +632,7 @@ class Grid():
 
         # Otherwise make sure the positions array is in the right shape and matches the shape of the grid
         else:
-            positions = np.array(positions,ndmin=1,copy=True)
+            positions = np.array(positions,ndmin=1,copy=True,dtype=float)
             if positions.shape[0] > 0:
                 if positions.shape[1] !=self.n_dimensions:
                     raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
@@ -1033,7 +1033,7 @@ class Grid():
         properties = tuple(properties)
 
         # Make sure the positions array is in the right shape and matches the dimensions of the grid
-        positions = np.array(positions,ndmin=1,copy=True)
+        positions = np.array(positions,ndmin=1,copy=True,dtype=float)
         if positions.shape[0] > 0:
             if positions.shape[1] != self.n_dimensions:
                 raise ValueError('positions (dim={}) does not have the right number of dimensions for the grid (dim={})'.format(positions.shape[1],self.n_dimensions))
-- 
2.43.0


From 19efe9ac065c8df5e2b18a586ce2dcd394f668e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 42/88] fix: add each column of values to the property it was
 given for

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index f000636..2ec8195 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -668,11 +668,11 @@ class Grid():
                 if values.shape[1] != len(properties) and values.shape[1] != 1:
                     raise ValueError("Values array does not contain the correct number of properties.")
 
-                for ip in properties:
+                for iv,ip in enumerate(properties):
                     if values.shape[1] == 1:
                         v = values.flatten()
                     else:
-                        v = values[:,ip]
+                        v = values[:,iv]
                     np.add.at(self.grid,positions+(ip,),v)
 
             # Count the number of objects
-- 
2.43.0


From 371088b921e2a8cc24f54bf0be39d9981cf648bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 43/88] fix: leave the axes of a grid in order when adding
 spectra to it fails

---
 simim/map/gridder.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 2ec8195..8428a10 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -760,15 +760,11 @@ class Grid():
         # Move array-axis to predictable location (end of grid)
         if not new_prop:
             if properties is None:
-                self.grid = np.moveaxis(self.grid,ax,-2)
-                np.add.at(self.grid, positions, np.expand_dims(values,2))
-                self.grid = np.moveaxis(self.grid,-2,ax)
+                np.add.at(np.moveaxis(self.grid,ax,-2), positions, np.expand_dims(values,2))
             else:
                 properties = self._check_property_input(properties)
                 for ip in properties:
-                    self.grid = np.moveaxis(self.grid,ax,-2)
-                    np.add.at(self.grid, positions+(slice(None),ip,), values)
-                    self.grid = np.moveaxis(self.grid,-2,ax)
+                    np.add.at(np.moveaxis(self.grid,ax,-2), positions+(slice(None),ip,), values)
 
 
         else:
-- 
2.43.0


From a96792e61d0815c68eee1c4e5ec14df76274fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 44/88] fix: do not leave a grid padded when convolving it in
 place fails

---
 simim/map/gridder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 8428a10..3cc7c68 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1135,9 +1135,8 @@ class Grid():
 
         # Do the dang thing
         if in_place:
-            self.pad(ax,pad)
-            self.grid = fftconvolve(self.grid,source.grid.reshape(shape),axes=ax,mode='same')
-            self.pad(ax,-pad)
+            convgrid = self.convolve(source,ax=ax,in_place=False,pad=pad)
+            self.grid = convgrid.grid
 
             return self
 
-- 
2.43.0


From ca4161e26f338a34925b0dce1a38714fe064416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 45/88] fix: make down_sample work

---
 simim/map/gridder.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 3cc7c68..fc04cc5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1178,10 +1178,13 @@ class Grid():
         
         factor = np.array(factor,ndmin=1).astype(int)
         if len(factor) == 1:
-            factor = np.ones(len(ax))*factor[0]
+            factor = np.ones(len(ax),dtype=int)*factor[0]
         elif len(factor) != len(ax):
             raise ValueError('length of factor must be 1 or match the length of ax')
             
+        if np.any(factor < 1) or np.any(factor > self.n_pixels[ax]):
+            raise ValueError('factor must be between 1 and the number of pixels along each axis')
+
         for i in ax:
             if self.fourier_space[i]:
                 raise ValueError("Downsampling not supported for Fourier space (see the pad method)")
@@ -1194,17 +1197,18 @@ class Grid():
         else:
             raise ValueError("mode not recognized - must be 'average' or 'sum'.")
 
-        for axi in ax:
+        for axi,fac in zip(ax,factor):
             shape = np.concatenate((self.n_pixels,[self.n_properties]))
-            shape[axi] = shape[axi]//factor[axi]
+            shape[axi] = shape[axi]//fac
 
             # Downsample
-            new_ax_centers = np.zeros(self.axes_centers[axi].shape)
-            new_grid = np.zeros(shape)
+            new_ax_centers = np.zeros(shape[axi])
+            if self.grid_active:
+                new_grid = np.zeros(shape,dtype=self.grid.dtype)
             for i in range(shape[axi]):
-                slice_ax = slice(i*factor[axi],(i+1)*factor[axi])
-                slices = [slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1)]
-                slices_new = [slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1)]
+                slice_ax = slice(i*fac,(i+1)*fac)
+                slices = tuple(slice(0,None) if j!=axi else slice_ax for j in range(self.n_dimensions+1))
+                slices_new = tuple(slice(0,None) if j!=axi else i for j in range(self.n_dimensions+1))
 
                 if self.grid_active:
                     new_grid[slices_new] = use_function(self.grid[slices],axis=axi)
@@ -1214,9 +1218,9 @@ class Grid():
             if self.grid_active:
                 self.grid = new_grid
             self.axes_centers[axi] = new_ax_centers
-            self.axes[axi] = np.concatenate((new_ax_centers-(factor[axi]*self.pixel_size[axi])/2, [new_ax_centers[-1]+(factor[axi]*self.pixel_size[axi])/2]))
-            self.pixel_size[axi] = self.pixel_size[axi]*factor[axi]
-            self.n_pixels[axi] = self.n_pixels[axi]//factor[axi]
+            self.axes[axi] = np.concatenate((new_ax_centers-(fac*self.pixel_size[axi])/2, [new_ax_centers[-1]+(fac*self.pixel_size[axi])/2]))
+            self.pixel_size[axi] = self.pixel_size[axi]*fac
+            self.n_pixels[axi] = self.n_pixels[axi]//fac
             self.side_length[axi] = np.ptp(self.axes[axi])
             self.center_point[axi] = np.min(self.axes[axi]) + self.side_length[axi]/2
             self.fourier_axes_centers[axi] = np.fft.fftshift(np.fft.fftfreq(self.n_pixels[axi],self.pixel_size[axi]))
-- 
2.43.0


From 87a1e66dcf6842e6bf374d6f29cd338314e7b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 46/88] fix: accept one padding per axis when convolving

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index fc04cc5..cada427 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1132,6 +1132,8 @@ class Grid():
             pad = np.array([pad for i in range(len(ax))]).astype(int)
         elif pad is None:
             pad = np.array([0 for i in range(len(ax))]).astype(int)
+        else:
+            pad = np.array(pad,dtype=int)
 
         # Do the dang thing
         if in_place:
-- 
2.43.0


From 56b2074cd85e0a3ec744db9ff2df56b77a95f53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 47/88] fix: collapse several dimensions of a grid at once, and
 by weights for every cell

---
 simim/map/gridder.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index cada427..4b9d2ad 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1276,6 +1276,8 @@ class Grid():
             weights = [np.ones(len(self.axes_centers[i])) for i in ax]
         elif len(ax) == 1:
             weights = [weights]
+        else:
+            weights = list(weights)
 
         if len(weights) != len(ax):
             raise ValueError("Must provide a weights array for each axis to collapse")
@@ -1296,26 +1298,24 @@ class Grid():
                 elif weights[i].ndim == self.n_dimensions+1:
                     if weights[i].shape != self.grid.shape:
                         raise ValueError("Weights must match shape of grid")
-                    weights[i] = np.expand_dims(weights[i],-1)
                 else:
                     raise ValueError("Weights for axis {} must match size of grid. {} // {}".format(ax[i],len(weights[i]),len(self.axes_centers[ax[i]])))
         
+        # The weight of each cell is the product of its weights along all axes
+        weight = np.ones(self.grid.shape)
+        for w in weights:
+            weight = weight*w
+
         if mode=='sum':
-            norm = [1 for i in ax]
+            norm = 1
         elif mode=='average':
-            norm = []
-            for i in range(len(ax)):
-                if weights[i].ndim == 1:
-                    norm.append(np.sum(weights[i]))
-                else:
-                    norm.append(np.sum(weights[i],axis=ax[i]))
+            norm = np.sum(weight,axis=tuple(ax))
         else:
             raise ValueError("mode not recognized - options are 'sum','average'")
 
         # Do the dang thing
         if in_place:
-            for i in range(len(ax)):
-                self.grid = np.sum(self.grid*weights[i],axis=ax[i]) / norm[i]
+            self.grid = np.sum(self.grid*weight,axis=tuple(ax)) / norm
 
             # Update grid
             self.n_pixels = self.n_pixels[ax_keep]
@@ -1338,8 +1338,7 @@ class Grid():
         else:
             newgrid = self.copy()
 
-            for i in range(len(ax)):
-                newgrid.grid = np.sum(newgrid.grid*weights[i],axis=ax[i]) / norm[i]
+            newgrid.grid = np.sum(newgrid.grid*weight,axis=tuple(ax)) / norm
 
             # Update grid
             newgrid.n_pixels = self.n_pixels[ax_keep]
-- 
2.43.0


From dea24218c7cf52513a8c392367fbf13a753a5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 48/88] fix: leave grids as they were when computing their
 power spectrum, and know which axes of it are in Fourier space

---
 simim/map/gridder.py | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4b9d2ad..ed7073b 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1474,6 +1474,8 @@ class Grid():
                 raise ValueError("This cross_grid is already a power spectrum")
             if cross_grid.n_dimensions != self.n_dimensions:
                 raise ValueError("grid n_dimensions ({}) does not match cross_grid ({})".format(self.n_dimensions,cross_grid.n_dimensions))
+            if np.any(cross_grid.n_pixels != self.n_pixels):
+                raise ValueError("grid n_pixels ({}) does not match cross_grid ({})".format(self.n_pixels,cross_grid.n_pixels))
             if cross_grid.n_properties != 1 and self.n_properties != 1:
                 if cross_grid.n_properties != self.n_properties:
                     raise ValueError("grid n_properties ({}) is not compatible cross_grid ({})".format(self.n_properties,cross_grid.n_properties))
@@ -1495,8 +1497,10 @@ class Grid():
             if self.fourier_space[i]:
                 transform_list.append(i)
 
-        # Make appropriate fourier_transform call
-        self.fourier_transform(transform_list,normalize=normalize)
+        # Make appropriate fourier_transform call - on a copy, so as to leave
+        # the original as it was
+        transformed = self.copy()
+        transformed.fourier_transform(transform_list,normalize=normalize)
 
         # Same for cross_grid
         if not cross_grid is None:
@@ -1509,6 +1513,7 @@ class Grid():
                     cross_transform_list.append(i)
 
             # Make appropriate fourier_transform call
+            cross_grid = cross_grid.copy()
             cross_grid.fourier_transform(cross_transform_list,normalize=normalize)
 
         # Figure out the units to assign
@@ -1524,32 +1529,34 @@ class Grid():
         # If in_place, then just overwrite the grid with the power spectrum
         if in_place:
             if not cross_grid is None:
-                self.grid = (self.grid * cross_grid.grid.conj()).real
+                self.grid = (transformed.grid * cross_grid.grid.conj()).real
                 # for i in range(len(self.gridunits)):
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += cross_grid.gridunits[i] + unit_end
             else:
-                self.grid = (self.grid * self.grid.conj()).real
+                self.grid = (transformed.grid * transformed.grid.conj()).real
                 # for i in range(len(self.gridunits)):
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += '^2' + unit_end
 
             self.is_power_spectrum = True
+            self.fourier_space = transformed.fourier_space
+            if self.grid.shape[-1] != self.n_properties:
+                self.n_properties = self.grid.shape[-1]
+                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
             # for i in range(len(self.gridunits)):
             #     if not self.gridunits[i] is None:
             #         self.gridunits += unit_end
 
-            # Invert fourier transforms
-            if not cross_grid is None:
-                cross_grid.fourier_transform(cross_transform_list,normalize=normalize)
-
             return self
 
         # Else we need to create a new grid instance to hold the power
-        # spectrum and return it, plus invert the fourier transforms
-        # to the original grid
+        # spectrum and return it
         else:
-            powspec = Grid(self.n_properties,self.center_point,self.side_length,self.pixel_size,self.axunits,self.gridunits)
+            n_properties = self.n_properties
+            if not cross_grid is None:
+                n_properties = max(n_properties,cross_grid.n_properties)
+            powspec = self.copy_axes(n_properties)
 
             # TO DO!! Tidy up the units
             # for i in range(len(powspec.gridunits)):
@@ -1557,12 +1564,12 @@ class Grid():
             #         powspec.gridunits += unit_end
 
             if not cross_grid is None:
-                powspec.grid = (self.grid * cross_grid.grid.conj()).real
+                powspec.grid = (transformed.grid * cross_grid.grid.conj()).real
                 # for i in range(len(self.gridunits)):
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += cross_grid.gridunits[i] + unit_end
             else:
-                powspec.grid = (self.grid * self.grid.conj()).real
+                powspec.grid = (transformed.grid * transformed.grid.conj()).real
                 # for i in range(len(self.gridunits)):
                 #     if not self.gridunits[i] is None:
                 #         self.gridunits[i] += '^2' + unit_end
@@ -1570,13 +1577,7 @@ class Grid():
             powspec.grid_active = True
             powspec.is_power_spectrum = True
             powspec.n_objects = self.n_objects
-            powspec.fourier_space = np.copy(self.fourier_space)
-            powspec.fourier_space[:] = True
-
-            # Invert fourier transforms
-            if not cross_grid is None:
-                cross_grid.fourier_transform(cross_transform_list,normalize=normalize)
-            self.fourier_transform(transform_list,normalize=normalize)
+            powspec.fourier_space = transformed.fourier_space
 
             return powspec
 
-- 
2.43.0


From def908b64ab0b5cc51ae4cc82af76cf4b75e667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 49/88] fix: do not leave the outermost shell out of spherical
 averages

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ed7073b..7798b56 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1736,7 +1736,7 @@ class Grid():
         # Determine the correct bin for each cell - digitize data into shells
         # and then get indices of dimensions that aren't being flattened
         bins_for_cells = np.digitize(rad,shells) - 1
-        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-2))
+        good_inds = np.nonzero((bins_for_cells>-1) & (bins_for_cells<len(shells)-1))
         coords_for_cells = np.indices(self.grid.shape)
         coords_for_cells = [bins_for_cells] + \
                            [coords_for_cells[i_ax].flatten() for i_ax in range(self.n_dimensions) if keep_axes[i_ax]] + \
@@ -1770,7 +1770,7 @@ class Grid():
         # Compute standard deviation if requested
         if return_std:
 
-            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-2))
+            good_inds_grid = np.nonzero((bins_for_cells.reshape(self.grid.shape)>-1) & (bins_for_cells.reshape(self.grid.shape)<len(shells)-1))
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-- 
2.43.0


From bf131ad096b78667169aea01c0606e1abff25005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 50/88] fix: do not round the weights of spherical averages

---
 simim/map/gridder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 7798b56..e7c9e99 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1757,7 +1757,7 @@ class Grid():
         binned_averages = np.zeros(binned_shape,dtype=dtype_data)
         np.add.at(binned_averages,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(self.grid*weights).flatten()[good_inds].reshape(-1,1))
 
-        binned_weights = np.zeros(binned_shape,dtype=int)
+        binned_weights = np.zeros(binned_shape,dtype=float)
         np.add.at(binned_weights,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights).flatten()[good_inds].reshape(-1,1))
 
         binned_averages /= binned_weights
@@ -1782,7 +1782,7 @@ class Grid():
             if biased_std:
                 binned_std = np.sqrt(binned_std/binned_weights)
             else:
-                binned_weights2 = np.zeros(binned_shape,dtype=int)
+                binned_weights2 = np.zeros(binned_shape,dtype=float)
                 np.add.at(binned_weights2,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),(np.ones(self.grid.shape)*weights**2).flatten()[good_inds].reshape(-1,1))
 
                 binned_std = np.sqrt(binned_std/(binned_weights-binned_weights2/binned_weights))
-- 
2.43.0


From 396938fac8c8cb703ae2be788f52f117094fd56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 51/88] fix: average grids in spherical shells after they have
 been Fourier transformed and back

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index e7c9e99..0b05914 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1744,7 +1744,7 @@ class Grid():
         coords_for_cells = np.array(coords_for_cells).T[good_inds] # This is now an n_cells x n_dimensions (of binned data) array
 
         # Bin the data
-        if axfourier and not self.is_power_spectrum:
+        if np.iscomplexobj(self.grid) and not self.is_power_spectrum:
             dtype_data = complex
         else:
             dtype_data = float
@@ -1774,9 +1774,9 @@ class Grid():
             means = binned_averages[tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1))].flatten()
             std_vals = np.copy(self.grid)
             std_vals[good_inds_grid] = std_vals[good_inds_grid] - means
-            std_vals = std_vals**2 * weights
+            std_vals = np.abs(std_vals)**2 * weights
 
-            binned_std = np.zeros(binned_shape,dtype=dtype_data)
+            binned_std = np.zeros(binned_shape,dtype=float)
             np.add.at(binned_std,tuple(np.split(coords_for_cells,coords_for_cells.shape[1],axis=1)),std_vals.flatten()[good_inds].reshape(-1,1))
             
             if biased_std:
-- 
2.43.0


From 80c48a54e843f9bc7218bc0929e68e5e65b93c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 52/88] fix: do not overwrite saved grids whose path was given
 without extension

---
 simim/map/gridder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 0b05914..cb7099f 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -542,6 +542,9 @@ class Grid():
         else:
             savefunc = np.savez
 
+        if not str(path).endswith('.npz'): # numpy will append this
+            path = str(path) + '.npz'
+
         if os.path.exists(path) and not overwrite:
             raise ValueError("The file you are trying to create already exists")
 
-- 
2.43.0


From 7cc372617487c466bf06298d9ed9ffe223d8c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 53/88] fix: load counts and flags of saved grids as numbers
 instead of arrays

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index cb7099f..6d8d92a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2123,7 +2123,7 @@ class LoadGrid(Grid):
 
         input = np.load(path,allow_pickle=True)
 
-        super().__init__(n_properties=input['n_properties'],
+        super().__init__(n_properties=int(input['n_properties']),
                          center_point=input['center_point'],
                          side_length=input['side_length'],
                          pixel_size=input['pixel_size'],
@@ -2133,9 +2133,9 @@ class LoadGrid(Grid):
         if input['grid_active']:
             self.grid_active = True
             self.grid = input['grid']
-            self.n_objects = input['n_objects']
+            self.n_objects = int(input['n_objects'])
         self.fourier_space = input['fourier_space']
-        self.is_power_spectrum = input['is_power_spectrum']
+        self.is_power_spectrum = bool(input['is_power_spectrum'])
 
 
 def gridder_function(positions, values = None, center_point = None, side_length = None, pixel_size = 1, setndims = None):
-- 
2.43.0


From bd95917a290111275307638e949aa1d704dc5e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 54/88] fix: grid the outermost objects too when Gridder
 chooses the side length

---
 simim/map/gridder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6d8d92a..54b3a69 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2097,8 +2097,9 @@ class Gridder(Grid):
 
         # Handle side_length inputs:
         if side_length is None:
-            side_length = ptps * 1.0000001 # Expand slightly so both extrema get gridded
-            side_length[ptps==0] = 1 # In case dimension is flat
+            # Whole pixels, as many as it takes for both extrema to get gridded
+            pixel_size = np.ones(n_dimensions)*np.array(pixel_size)
+            side_length = (np.floor(ptps/pixel_size * 1.0000001) + 1) * pixel_size
         else:
             side_length = np.array(side_length,ndmin=1,copy=True)
             if len(side_length) == 1:
-- 
2.43.0


From a2cbdd400fe42ee7b434b55974e90eff4a919160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 55/88] fix: do not let rounding errors add pixels to grids
 made from axes

---
 simim/map/gridder.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 54b3a69..cd21ae5 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2363,6 +2363,7 @@ class GridFromAxes(Grid):
         side_length = []
         pixel_size = []
         for i,ax in enumerate(axes):
+            ax = np.array(ax)
             if len(ax) > 1:
                 steps = ax[1:]-ax[:-1]
                 if not np.all(np.isclose(steps, steps[0])):
@@ -2378,14 +2379,6 @@ class GridFromAxes(Grid):
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits)
 
-        n_pixels_decimal = self.side_length/self.pixel_size
-        n_pixels_ceil = np.ceil(n_pixels_decimal)
-        if np.any(n_pixels_decimal != n_pixels_ceil):
-            self.side_length = self.pixel_size * n_pixels_ceil
-            if (not side_length is None) and (not center_point is None):
-                warnings.warn("Side lengths increased to accomodate integer number of pixels")
-        self.n_pixels = n_pixels_ceil.astype('int')
-
 class GridFromAxesAndFunction(GridFromAxes):
     def __init__(self,function,*axes,function_kwargs={},n_properties=1,axunits=None,gridunits=None):
         """Initialize a Grid from a set of axes and populate it using a function
-- 
2.43.0


From 596cb7cf8e97cfe20f62220a243d0b27e621d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 56/88] fix: make the spectral axis of SpectralPSF increase,
 with edges around its channels

---
 simim/map/gridder.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index cd21ae5..4c78f4a 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -2279,7 +2279,7 @@ class SpectralPSF(Grid):
             raise ValueError("norm option not recognized")
 
         self.fwhm0 = np.array(fwhm0,ndmin=1,copy=True)
-        spec_axis = np.array(spec_axis,ndmin=1,copy=True)
+        spec_axis = np.sort(np.array(spec_axis,ndmin=1,dtype=float))
 
         n_dimensions = self.fwhm0.shape[0] + 1
         center_point = np.zeros(self.fwhm0.shape[0])
@@ -2303,7 +2303,6 @@ class SpectralPSF(Grid):
         pixel_size = np.concatenate((pixel_size,[np.abs(spec_axis[1]-spec_axis[0])]))
 
         super().__init__(n_properties,center_point,side_length,pixel_size,axunits,gridunits=None)
-        self.axes[-1] = spec_axis
 
         # Make the grid
         sig = self.fwhm0 / (2*np.sqrt(2*np.log(2)))
-- 
2.43.0


From c26f9a912cd23c4ca97a72aef43366cbb3f4a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 57/88] fix: observe the property of a field that was asked for

---
 simim/instrument/_helpers.py   | 2 +-
 simim/instrument/instrument.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index a35f977..3cca116 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -89,7 +89,7 @@ def _check_grid_detector_compatibility(detector,grid,field_property_idx):
         warnings.warn("Detector unit for flux not specified. Assuming it matches grid unit")
     else:
         try: 
-            _check_unit(grid.gridunits,'flux')
+            _check_unit(grid.gridunits[field_property_idx],'flux')
         except:
             raise ValueError("grid flux unit not recognized")
         if grid.gridunits[field_property_idx] != detector.flux_unit:
diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 29b5777..9420d25 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -672,7 +672,7 @@ class Instrument:
 
         if field_property_idx is None:
             field_property_idx = 0
-        if field_property_idx > grid.n_dimensions-1 or field_property_idx < 0:
+        if field_property_idx > grid.n_properties-1 or field_property_idx < 0:
             raise ValueError(f"grid does not have property {field_property_idx}")
         if _check:
             _check_grid_detector_compatibility(self,grid,field_property_idx)
@@ -867,7 +867,7 @@ class Instrument:
 
         # Iterate through fields
         for f in field_names:
-            field = self.fields[f]
+            field = self.fields[f].copy(properties=self.field_props[f])
 
             all_detector_maps = [None for i in range(len(self.detector_names))]
             
@@ -895,6 +895,7 @@ class Instrument:
             # Hijack last 2d grid and turn it into a grid with each map as a property
             detector_map.grid = all_detector_maps
             detector_map.n_properties = len(self.detector_names)
+            detector_map.gridunits = np.array([field.gridunits[0] for d in self.detector_names])
 
             # Save the result
             self.maps[f] = detector_map
-- 
2.43.0


From 8510e76f384933c88c4444a06c0a8a04677d959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 58/88] fix: accept a number of pixels as kernel_size

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 9420d25..58d2c6f 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -784,6 +784,8 @@ class Instrument:
 
         if kernel_size is None:
             kernel_size = np.round(self.best_spatial_res / field.pixel_size[:2]).astype(int) * 10 + 1
+        else:
+            kernel_size = np.ones(2,dtype=int) * kernel_size
         
         # Check that the value of norm is recognized
         if spatial_response_norm not in ['peak','area','none']:
-- 
2.43.0


From 45fcce0aadbd87c40851547167c26bf21b8d2257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 59/88] fix: leave no trace of deleted fields that were never
 mapped

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 58d2c6f..92f4492 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -722,7 +722,7 @@ class Instrument:
 
             if f in self.maps:
                 self.maps.pop(f)
-                self.maps_consistent.pop(f)
+            self.maps_consistent.pop(f)
 
 
     def _find_spatial_clones(self) -> list:
-- 
2.43.0


From ffd59ec371441e13a1629c9e84a9cc8f0049512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 60/88] fix: accept pointing offsets given as arrays or lists

---
 simim/instrument/instrument.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 92f4492..74167ab 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -503,6 +503,7 @@ class Instrument:
             pointing_offsets = (0,0)
         elif len(pointing_offsets) != 2:
             raise ValueError("pointing_offsets should be a tuple of length 2")
+        pointing_offsets = tuple(pointing_offsets)
 
         # Invalid case - no function and no default
         if spatial_response is None and self.default_spatial_response is None:
-- 
2.43.0


From 971394feb08fc66f08c3bbd9b561877b6fed456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 61/88] fix: map detectors whose spatial responses have arrays
 as parameters

---
 simim/instrument/_helpers.py   | 6 +++++-
 simim/instrument/instrument.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/simim/instrument/_helpers.py b/simim/instrument/_helpers.py
index 3cca116..df20606 100644
--- a/simim/instrument/_helpers.py
+++ b/simim/instrument/_helpers.py
@@ -108,4 +108,8 @@ def _dict_none_copy(x):
     if x is None:
         return None
     else:
-        return x.copy()
\ No newline at end of file
+        return x.copy()
+
+def _same_kwargs(a,b):
+    """Compare two dictionaries, values of which may be arrays"""
+    return a.keys() == b.keys() and all(a[k] is b[k] or np.array_equal(a[k],b[k]) for k in a)
diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 74167ab..20b73ba 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -4,7 +4,7 @@ from typing import Callable
 
 from simim._pltsetup import *
 from simim.map import Grid
-from simim.instrument._helpers import _check_unit, _check_grid_detector_compatibility, _specunit_type, _dict_none_copy
+from simim.instrument._helpers import _check_unit, _check_grid_detector_compatibility, _specunit_type, _dict_none_copy, _same_kwargs
 
 
 from simim.instrument.noise_functions import zero_noise, white_noise
@@ -733,7 +733,7 @@ class Instrument:
         
         while len(need_groups) > 0:
             d0 = need_groups[0]
-            matches = [d for d in need_groups if self.detectors[d].spatial_response == self.detectors[d0].spatial_response and self.detectors[d].spatial_kwargs == self.detectors[d0].spatial_kwargs]
+            matches = [d for d in need_groups if self.detectors[d].spatial_response == self.detectors[d0].spatial_response and _same_kwargs(self.detectors[d].spatial_kwargs,self.detectors[d0].spatial_kwargs)]
             need_groups = [d for d in need_groups if d not in matches]
             groups.append(matches)
 
-- 
2.43.0


From eed610b41f1b8dd760a23f9178f9dd44342b5dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 62/88] fix: refuse detectors with the name that stands for the
 instrument's defaults

---
 simim/instrument/instrument.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 20b73ba..03a1a98 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -495,6 +495,8 @@ class Instrument:
         # Set name
         if name is None:
             name = str(self.detector_counter)
+        if name == 'instrument':
+            raise ValueError("'instrument' is reserved for the defaults of the instrument")
         if name in self.detector_names:
             raise ValueError("Name already in use - this may be because you specified a pre-existing name or because another detector has been given a numerical name that would have been used as a default")
         
-- 
2.43.0


From c7b7d5ac315539ebe2a6b266178548c7abb50294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:17 +0000
Subject: [PATCH 63/88] fix: make plot_spectral_response work

---
 simim/instrument/instrument.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 03a1a98..8b2feec 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1088,9 +1088,9 @@ class Instrument:
         """
     
         if fmin is None:
-            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values])
+            fmin = 0.9 * np.min([d.reffreq for d in self.detectors.values()])
         if fmax is None:
-            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values])
+            fmax = 1.1 * np.max([d.reffreq for d in self.detectors.values()])
 
         fig,axes = plt.subplots(1,1,figsize=figsize)
         fig.subplots_adjust(left=.1,right=.95,top=.95,bottom=.15,wspace=.35)
@@ -1106,8 +1106,7 @@ class Instrument:
         else: 
             cmap = colormaps['Spectral']
 
-        order = np.argsort(self.detector_freqs)
-        for i in np.argsort(self.detector_freqs):
+        for i in np.argsort([self.detectors[d].reffreq for d in self.detector_names]):
             d = self.detectors[self.detector_names[i]]
             axes.plot(f, d.spectral_response(f, **d.spectral_kwargs), color=cmap(i/(len(self.detectors)-.99)))
 
-- 
2.43.0


From c9dddf9b0c1ab6919c6783a5a99a5b4cfd6c62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 64/88] fix: keep units of axes given by a single string whole
 when they change

---
 simim/map/gridder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 4c78f4a..d79648f 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -157,7 +157,7 @@ class Grid():
         else:
             self.axunits = np.array(axunits,ndmin=1,copy=True,dtype=object)
             if len(self.axunits) == 1:
-                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)])
+                self.axunits = np.array([self.axunits[0] for i in range(self.n_dimensions)],dtype=object)
             if len(self.axunits) != self.n_dimensions:
                 raise ValueError("axunits don't match data dimensionality")
             self.fourier_axunits = np.array([i+'^-1' if i is not None else None for i in self.axunits],ndmin=1,dtype=object)
@@ -167,7 +167,7 @@ class Grid():
         else:
             self.gridunits = np.array(gridunits,ndmin=1,copy=True,dtype=object)
             if len(self.gridunits) == 1:
-                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
+                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)],dtype=object)
             if len(self.gridunits) != self.n_properties:
                 raise ValueError("gridunits don't match number of properties")
 
@@ -1546,7 +1546,7 @@ class Grid():
             self.fourier_space = transformed.fourier_space
             if self.grid.shape[-1] != self.n_properties:
                 self.n_properties = self.grid.shape[-1]
-                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)])
+                self.gridunits = np.array([self.gridunits[0] for i in range(self.n_properties)],dtype=object)
             # for i in range(len(self.gridunits)):
             #     if not self.gridunits[i] is None:
             #         self.gridunits += unit_end
-- 
2.43.0


From b2330d1e7b3f1c302b92e4a6c5a515bb3dc838b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 65/88] fix: sum properties of grids in Fourier space into a
 grid that says so

---
 simim/map/gridder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index d79648f..6a4eb91 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -989,6 +989,8 @@ class Grid():
             new_grid = self.copy_axes(n_properties=1)
             new_grid.init_grid()
             new_grid.grid = sum_grid
+            new_grid.fourier_space = np.copy(self.fourier_space)
+            new_grid.is_power_spectrum = self.is_power_spectrum
 
             return new_grid
 
-- 
2.43.0


From b75716a01aeaa2a29a2cc4b3000206a3f7f092bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:52 +0000
Subject: [PATCH 66/88] fix: keep the innermost cells in logarithmic shells

---
 simim/map/gridder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 6a4eb91..9d6a4d2 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1722,6 +1722,7 @@ class Grid():
                 if bin_min <=0:
                     bin_min = np.min(rad[rad>0])
                 shells = np.logspace(np.log10(bin_min),np.log10(bin_max),bin_n+1)
+                shells[0] = bin_min # Rounding must not exclude the innermost cells
             else:
                 raise ValueError("bin mode must be in ['log','linear'].")
         
-- 
2.43.0


From 0b95bb44f32a71fa6fff590787726d5736994f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 67/88] fix: refuse to convolve grids with sources that have
 several cells where the grid has one

---
 simim/map/gridder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index 9d6a4d2..ad8d4be 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1127,6 +1127,12 @@ class Grid():
             if np.any(ax>=self.n_dimensions) or np.any(ax<0):
                 raise ValueError('specified axes not valid')
 
+        # Along axes that are not convolved (and properties) the source must
+        # have either as many cells as this grid, or one that goes with all
+        for i in range(self.grid.ndim):
+            if i not in ax and shape[i] not in (1,self.grid.shape[i]):
+                raise ValueError("source does not match the grid along axes (or properties) that are not convolved")
+
         # Pad the array
         if pad is not None:
             if not isinstance(pad,int):
-- 
2.43.0


From 6b9ee545e847f0fcd13851590d1180ba16d554b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 68/88] fix: grid an empty selection of halos into an empty
 grid

---
 simim/lightcone/lchandler.py     | 2 +-
 simim/siminterface/simhandler.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/lightcone/lchandler.py b/simim/lightcone/lchandler.py
index 1fffd9f..45863c9 100644
--- a/simim/lightcone/lchandler.py
+++ b/simim/lightcone/lchandler.py
@@ -310,7 +310,7 @@ class LCHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res, setndims=3)
 
         if norm is None:
             norm = 1        
diff --git a/simim/siminterface/simhandler.py b/simim/siminterface/simhandler.py
index 0d86952..31615e4 100644
--- a/simim/siminterface/simhandler.py
+++ b/simim/siminterface/simhandler.py
@@ -149,7 +149,7 @@ class SnapHandler(Handler):
 
         grid = Gridder(np.array([x, y, z]).T, props,
                        center_point=c, side_length=l,
-                       pixel_size=res)
+                       pixel_size=res, setndims=3)
 
         if norm is None:
             norm = 1
-- 
2.43.0


From f550ab11674839a9772196b81cdfa9ac0d038d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 69/88] fix: give the CO SLED its infrared luminosities

---
 simim/galprops/line_co.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simim/galprops/line_co.py b/simim/galprops/line_co.py
index 435d8cb..00b801d 100644
--- a/simim/galprops/line_co.py
+++ b/simim/galprops/line_co.py
@@ -257,7 +257,9 @@ def kamenetzky16(sfr,
     b_not         = np.array([ 0.8,  0.4,  0.9,  1.2,  2.1,  2.3,  2.8,  2.5,  2.7,  2.5,  2.7,  3.4,  2.2])
     b_sig_not     = np.array([ 0.8,  0.9,  0.4,  0.5,  0.5,  0.4,  0.4,  0.5,  0.5,  0.5,  0.6,  0.4,  0.5])
 
-    L_fir = sfr/d_mf*1e10*fircor
+    sfr = np.array(sfr, ndmin=1)
+    L_ir = sfr/d_mf*1e10
+    L_fir = L_ir*fircor
 
     a_gal = np.zeros((len(sfr), len(lines)))
     b_gal = np.zeros((len(sfr), len(lines)))
@@ -276,8 +278,8 @@ def kamenetzky16(sfr,
         a_gal[:,:] = a[lines]
         b_gal[:,:] = b[lines]
 
-    L_ir = L_ir.reshape(len(sfr),1) * np.ones((1,len(lines)))
-    log_L_co_p = (np.log10(L_ir) - b_gal) / a_gal
+    L_fir = L_fir.reshape(len(sfr),1) * np.ones((1,len(lines)))
+    log_L_co_p = (np.log10(L_fir) - b_gal) / a_gal
     L_co_p = np.power(10,log_L_co_p)
     L_co = L_co_p * 4.9e-5 * (f[lines]/constants.nu_co10)**3
 
-- 
2.43.0


From cbb51077315766892533c15b0de224c31424ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 70/88] fix: draw the scatter of Behroozi SFRs and stellar
 masses from the given generator

---
 simim/galprops/sfr_behroozi13.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/sfr_behroozi13.py b/simim/galprops/sfr_behroozi13.py
index 9a291c0..4e7455c 100644
--- a/simim/galprops/sfr_behroozi13.py
+++ b/simim/galprops/sfr_behroozi13.py
@@ -159,7 +159,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -170,7 +170,7 @@ class behroozi13_base():
         sfrval = self.sfr_function.ev(redshift,mass)
 
         if scatter:
-            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True)
+            sfrval = log10normal(sfrval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return sfrval
 
@@ -199,7 +199,7 @@ class behroozi13_base():
         """
 
         if self.path is None:
-            return ValueError("model setup not complete - make sure setupsimim has been run")
+            raise ValueError("model setup not complete - make sure setupsimim has been run")
 
         if np.any(redshift > np.amax(self.grid_redshift)) and self.warn:
             warnings.warn('redshift exceeds maximum in Behroozi model range')
@@ -210,7 +210,7 @@ class behroozi13_base():
         stellarmassval = self.stellarmass_function.ev(redshift,mass)
 
         if scatter:
-            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True)
+            stellarmassval = log10normal(stellarmassval, sigma_scatter, preserve_linear_mean=True, rng=rng)
 
         return stellarmassval
 
-- 
2.43.0


From 8db54433ff8b7b2ad0f54b3d14ce757b27460628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 71/88] fix: restore the sign of the [CI] 2-1 normalisation
 above redshift 5

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 55eb1be..91de157 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -204,7 +204,7 @@ _yang22_ci_params['n4b'] = np.array([0.750,0.05632])
 _yang22_ci_params['n4c'] = np.array([-0.0807,0])
 _yang22_ci_params['n5a'] = np.array([1.89,1.48])
 _yang22_ci_params['n5b'] = np.array([5.73,6.14])
-_yang22_ci_params['n5c'] = np.array([-6.03,5.31])
+_yang22_ci_params['n5c'] = np.array([-6.03,-5.31])
 
 _yang22_ci_params['a1a'] = np.array([-0.741,-1.16])
 _yang22_ci_params['a1b'] = np.array([0.739,0.706])
-- 
2.43.0


From e9cf66e533e0dab981435aee30099b75242013a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 72/88] fix: look up the [CI] fit by its own line names

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 91de157..5c91f81 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -232,7 +232,7 @@ def _yang22_ci_fit(redshift,line):
 
     if line not in ['CI1-0','CI2-1']:
         raise ValueError('CI line not recognized')
-    pars = _yang22_ci_params[_yang22_co_params['name']==line][0]
+    pars = _yang22_ci_params[_yang22_ci_params['name']==line][0]
 
     return_scalar = np.isscalar(redshift)
     redshift = np.array(redshift)
-- 
2.43.0


From f9ae7182fd2e557278a218da591173cf0bc251dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 73/88] fix: draw the duty cycle of Yang et al. lines from the
 given generator

---
 simim/galprops/line_fir_yang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 5c91f81..8377a84 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -57,7 +57,7 @@ def yang22(mass,redshift,line='CII',
 
     if fduty:
         f = _yang22_fduty(mass, redshift)
-        L[np.random.rand(len(L))>f] = 0
+        L[rng.random(L.shape)>f] = 0
 
     return L
 
-- 
2.43.0


From 40dc90d0120a371f8402dcd9ab0351bfd11d4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 74/88] fix: accept a single mass or redshift in the Yang et
 al. lines

---
 simim/galprops/line_fir_yang.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simim/galprops/line_fir_yang.py b/simim/galprops/line_fir_yang.py
index 8377a84..41e9893 100644
--- a/simim/galprops/line_fir_yang.py
+++ b/simim/galprops/line_fir_yang.py
@@ -38,7 +38,10 @@ def yang22(mass,redshift,line='CII',
 
     if line not in ['CII', 'CI1-0', 'CI2-1', 'CO1-0', 'CO2-1', 'CO3-2', 'CO4-3', 'CO5-4']:
         raise ValueError("line not recognized")
-    elif line == 'CII':
+
+    mass, redshift = np.broadcast_arrays(np.array(mass,ndmin=1), np.array(redshift,ndmin=1))
+
+    if line == 'CII':
         m1, n, a, b, sig = _yang22_cii_fit(redshift)
     elif line in ['CI1-0','CI2-1']:
         m1, n, a, b, sig = _yang22_ci_fit(redshift,line)
-- 
2.43.0


From 76e73fbbfba66f9cd5c002edf40eddcd8d5e8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 75/88] fix: extrapolate the first property of matched
 distributions with its own values

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 534f644..98954f3 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -246,13 +246,13 @@ def am_dfdf(prop1_rv:rv_continuous, prop2_rv:rv_continuous,
         if np.asarray(cum1).ndim > 0:
             ppf = np.zeros(len(cum1))
             ppf[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))] = prop1_rv.ppf(cstar[(cum1>missing_pmass_low_p1) & (cum1<(1-missing_pmass_high_p1))])
-            ppf[cum1<missing_pmass_low_p1] = fillers[2]
-            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[3]
+            ppf[cum1<missing_pmass_low_p1] = fillers[0]
+            ppf[cum1>(1-missing_pmass_high_p1)] = fillers[1]
         else:
             if cum1<missing_pmass_low_p1:
-                ppf = fillers[2]
+                ppf = fillers[0]
             elif cum1>1-missing_pmass_high_p1:
-                ppf = fillers[3]
+                ppf = fillers[1]
             else:
                 ppf = prop1_rv.ppf(cstar)
     
-- 
2.43.0


From 38208b30228040c15f0d9294a65660ecfc6ca95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 76/88] fix: integrate Schechter functions at several values
 and for slopes between -2 and -1

---
 simim/galprops/galprops_am.py | 129 +++++++++-------------------------
 1 file changed, 33 insertions(+), 96 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 98954f3..c413839 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -327,14 +327,7 @@ class schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha, phi0, xmin):
-        int = phi0 * self._uppergammamod(alpha+1, x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi0 * self._uppergammamod(alpha+1, xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
-
-        return int
+        return phi0 * self._uppergammamod(alpha+1, np.maximum(x, xmin)/x0)
 
     def _uppergammamod(self, a, x):
         """Double schechter function parameterized as
@@ -365,52 +358,27 @@ class schechter_gen(rv_continuous):
         which is related to the exponential integral (https://mathworld.wolfram.com/ExponentialIntegral.html),
         which can be evaluated using a scipy function."""
         
+        scalar = np.ndim(a) == 0 and np.ndim(x) == 0
+        a, x = np.broadcast_arrays(np.array(a, dtype=float, ndmin=1), np.array(x, dtype=float, ndmin=1))
+        gp = np.zeros(a.shape)
+
         amod = a%1
-        n = np.asarray(amod-a).astype('int')
+        n = np.rint(amod-a).astype('int')
         n[n<0] = 0
 
-        if np.asarray(a).size == 1:
-            if a>0:
-                gp = gamma(a) * gammaincc(a, x)
-            elif a<=0 and amod==0:
-                gp = -expi(-x)
-            elif a<0 and amod!=0:
-                gp = gamma(amod) * gammaincc(amod, x)
-
-        elif np.asarray(x).shape == np.asarray(a.shape):
-            gp = np.zeros(x.shape)
-
-            c1 = np.asarray(a) > 0
-            c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
-            c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
-
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+        c1 = a > 0
+        c2 = (a <= 0) & (amod==0)
+        c3 = (a < 0) & (amod!=0)
 
-        elif np.asarray(x).size == 1:
-            gp = np.zeros(a.shape)
-            c1 = np.asarray(a) > 0
-            c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
-            c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
+        gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
+        gp[c2] = -expi(-x[c2])
+        gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
-
-        else:
-            raise ValueError('a and x shapes incompatible')
-
-
-
-        for i in range(np.max(n)):
-            if np.asarray(a).size == 1:
-                gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
-
-            else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+        for i in range(np.max(n, initial=0)):
+            c = n > i
+            gp[c] = (gp[c] - x[c]**(amod[c]-(i+1))*np.exp(-x[c])) / (amod[c] - (i+1))
 
-        return gp
+        return gp[0] if scalar else gp
     
     def _pdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
@@ -469,14 +437,8 @@ class double_schechter_gen(rv_continuous):
         return phi
 
     def lum_function_int(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
-        int = phi1 * self._uppergammamod(alpha1+1, x/x0) + phi2 * self._uppergammamod(alpha2+1,x/x0)
-        if np.asarray(x).ndim > 0:
-            int[x<xmin] = phi1 * self._uppergammamod(alpha1+1, xmin/x0) + phi2 * self._uppergammamod(alpha2+1,xmin/x0)
-        else:
-            if x<xmin:
-                int = 1
-
-        return int
+        u = np.maximum(x, xmin)/x0
+        return phi1 * self._uppergammamod(alpha1+1, u) + phi2 * self._uppergammamod(alpha2+1, u)
 
     def _uppergammamod(self, a, x):
         """Double schechter function parameterized as
@@ -507,52 +469,27 @@ class double_schechter_gen(rv_continuous):
         which is related to the exponential integral (https://mathworld.wolfram.com/ExponentialIntegral.html),
         which can be evaluated using a scipy function."""
         
+        scalar = np.ndim(a) == 0 and np.ndim(x) == 0
+        a, x = np.broadcast_arrays(np.array(a, dtype=float, ndmin=1), np.array(x, dtype=float, ndmin=1))
+        gp = np.zeros(a.shape)
+
         amod = a%1
-        n = np.asarray(amod-a).astype('int')
+        n = np.rint(amod-a).astype('int')
         n[n<0] = 0
 
-        if np.asarray(a).size == 1:
-            if a>0:
-                gp = gamma(a) * gammaincc(a, x)
-            elif a<=0 and amod==0:
-                gp = -expi(-x)
-            elif a<0 and amod!=0:
-                gp = gamma(amod) * gammaincc(amod, x)
-
-        elif np.asarray(x).shape == np.asarray(a.shape):
-            gp = np.zeros(x.shape)
-
-            c1 = np.asarray(a) > 0
-            c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
-            c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
-
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
+        c1 = a > 0
+        c2 = (a <= 0) & (amod==0)
+        c3 = (a < 0) & (amod!=0)
 
-        elif np.asarray(x).size == 1:
-            gp = np.zeros(a.shape)
-            c1 = np.asarray(a) > 0
-            c2 = (np.asarray(a) <= 0) & (np.asarray(amod)==0)
-            c3 = (np.asarray(a) < 0) & (np.asarray(amod)!=0)
+        gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
+        gp[c2] = -expi(-x[c2])
+        gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
 
-            gp[c1] = gamma(a[c1]) * gammaincc(a[c1], x[c1])
-            gp[c2] = -expi(-x[c2])
-            gp[c3] = gamma(amod[c3]) * gammaincc(amod[c3], x[c3])
-
-        else:
-            raise ValueError('a and x shapes incompatible')
-
-
-
-        for i in range(np.max(n)):
-            if np.asarray(a).size == 1:
-                gp = (gp - x**(amod-(i+1))*np.exp(-x)) / (amod - (i+1))
-
-            else:
-                gp[n>1] = (gp[n>1] - x**(amod[n>1]-(i+1))*np.exp(-x[n>1])) / (amod[n>1] - (i+1))
+        for i in range(np.max(n, initial=0)):
+            c = n > i
+            gp[c] = (gp[c] - x[c]**(amod[c]-(i+1))*np.exp(-x[c])) / (amod[c] - (i+1))
 
-        return gp
+        return gp[0] if scalar else gp
     
     def _pdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
-- 
2.43.0


From c9b8e57f75ffd0eb6fcbcc2afe85b5e262eac03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 77/88] fix: normalise the densities of mass and luminosity
 functions

---
 simim/galprops/galprops_am.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index c413839..790db68 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -385,7 +385,7 @@ class schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha, phi0, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p / norm
     
     def _cdf(self, x, x0, alpha, phi0, xmin):
         norm = self.lum_function_int(xmin, x0, alpha, phi0, xmin)
@@ -496,7 +496,7 @@ class double_schechter_gen(rv_continuous):
         p = self.lum_function(x, x0, alpha1, phi1, alpha2, phi2, xmin)
         p[x<xmin] = 0
 
-        return p
+        return p / norm
     
     def _cdf(self, x, x0, alpha1, phi1, alpha2, phi2, xmin):
         norm = self.lum_function_int(xmin, x0, alpha1, phi1, alpha2, phi2, xmin)
@@ -568,7 +568,7 @@ class modified_schechter_gen(rv_continuous):
 
         norm = self.lum_function_int(xmin, phi0, x0, alpha, sigma, xmin)
 
-        p = self.lum_function(np.asarray(x), phi0, x0, alpha, sigma, xmin) / norm
+        p = self.lum_function(np.asarray(x), phi0, x0, alpha, sigma, xmin) / (norm * x * np.log(10))
         return p
     
     def _cdf(self, x, phi0, x0, alpha, sigma, xmin):
@@ -646,7 +646,7 @@ class double_power_law_gen(rv_continuous):
 
         norm = self.lum_function_int(xmin, phi0, x0, alpha, beta, xmin)
 
-        p = self.lum_function(np.asarray(x), phi0, x0, alpha, beta, xmin) / norm
+        p = self.lum_function(np.asarray(x), phi0, x0, alpha, beta, xmin) / (norm * x * np.log(10))
         return p
     
     def _cdf(self, x, phi0, x0, alpha, beta, xmin):
-- 
2.43.0


From d421218fbeaadb5fd26ae3b374374024055e50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 78/88] fix: match infrared luminosities to the luminosity
 function that was asked for

---
 simim/galprops/sfr_ir.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7c9e6e5..7f0b7a5 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -58,9 +58,6 @@ class g13irlf_base():
         
         self.path = paths.props[self.name]
 
-        self.init_lir_function = False
-        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
-
         # Save pars
         self.lf_alpha0 = lf_alpha0
         self.lf_sigma0 = lf_sigma0
@@ -69,6 +66,9 @@ class g13irlf_base():
 
         self.lir_to_sfr = lir_to_sfr
 
+        self.init_lir_function = False
+        self._load_lir_function(comp=comp, remake=remake, haloprop=haloprop, halomassmin=halomassmin, lirmin=lirmin)
+
     def _load_lir_function(self, comp, remake, haloprop, halomassmin, lirmin):
         """Load or compute halo mass-ir luminosity relation"""
 
@@ -140,15 +140,17 @@ class g13irlf_base():
         np.save(os.path.join(self.path,'redshift_axis.npy'), zgrid)
         np.save(os.path.join(self.path,'lir.npy'), irgrid.T)
 
-    def get_irlf_pars(self, z, alpha0=1.2, sigma0=0.5, lstar0=10**9.95, phistar0=10**-2.25):
+    def get_irlf_pars(self, z, alpha0=None, sigma0=None, lstar0=None, phistar0=None):
         """Use the redshift scaling from Gruppioni et al. 2013 to get IRLF parameters"""
         if alpha0 is None:
             alpha0 = self.lf_alpha0
+        if sigma0 is None:
             sigma0 = self.lf_sigma0
+        if lstar0 is None:
             lstar0 = self.lf_lstar0
+        if phistar0 is None:
             phistar0 = self.lf_phistar0
 
-
         if np.asarray(z).ndim > 0:
             alpha = alpha0 * np.ones(len(z))
             sigma = sigma0 * np.ones(len(z))
-- 
2.43.0


From ee97b34a3a5c2b1004b2a8dd67250fe60e7db186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 79/88] fix: evaluate modified Schechter functions and double
 power laws at single values

---
 simim/galprops/galprops_am.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/galprops_am.py b/simim/galprops/galprops_am.py
index 790db68..8b5f3d9 100644
--- a/simim/galprops/galprops_am.py
+++ b/simim/galprops/galprops_am.py
@@ -546,7 +546,10 @@ class modified_schechter_gen(rv_continuous):
         '''Returns modified schechter function.
         suitable for integration in d log L space'''
         phi = phi0 * (x/x0)**(1-alpha) * np.exp(-1/(2*sigma**2) * np.log10(1+x/x0)**2)
-        phi[x < xmin] = 0
+        if np.asarray(x).ndim > 0:
+            phi[x<xmin] = 0
+        elif x<xmin:
+            phi = 0
         return phi
 
     def lum_function_int(self, x, phi0, x0, alpha, sigma, xmin):
@@ -624,7 +627,10 @@ class double_power_law_gen(rv_continuous):
     def lum_function(self, x, phi0, x0, alpha, beta, xmin):
         '''Returns double power law function.'''
         phi = phi0 * ((x/x0)**(alpha) + (x/x0)**beta)**-1
-        phi[x < xmin] = 0
+        if np.asarray(x).ndim > 0:
+            phi[x<xmin] = 0
+        elif x<xmin:
+            phi = 0
         return phi
 
     def lum_function_int(self, x, phi0, x0, alpha, beta, xmin):
-- 
2.43.0


From dcb8592a4817d55a2f869bf78c4e735602684c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 80/88] fix: choose the property to match by a snapshot the
 catalogue has

---
 simim/galprops/sfr_bethermin17.py | 2 +-
 simim/galprops/sfr_ir.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/simim/galprops/sfr_bethermin17.py b/simim/galprops/sfr_bethermin17.py
index eba84a3..b80fdf4 100644
--- a/simim/galprops/sfr_bethermin17.py
+++ b/simim/galprops/sfr_bethermin17.py
@@ -175,7 +175,7 @@ class bethermin17_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
diff --git a/simim/galprops/sfr_ir.py b/simim/galprops/sfr_ir.py
index 7f0b7a5..760cfcd 100644
--- a/simim/galprops/sfr_ir.py
+++ b/simim/galprops/sfr_ir.py
@@ -93,7 +93,7 @@ class g13irlf_base():
         if haloprop not in ['vmax','mass','auto']:
             raise ValueError("haloprop used for abundance matching must be one of 'vmax', 'mass', 'auto'")
         if haloprop == 'auto':
-            snap0 = handler.get_snap(0)
+            snap0 = handler.get_snap(handler.snap_meta['index'][0])
             if snap0.has_property('vmax'):
                 haloprop = 'vmax'
             elif snap0.has_property('mass'):
-- 
2.43.0


From f8d94cc51263c68122008bf7d9a9b999c1d0ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 81/88] fix: quote the path Illustris/TNG catalogues are
 downloaded to

---
 simim/siminterface/illustris.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index 1d11ef8..a963e1c 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -1,5 +1,6 @@
 import os
 import requests
+import shlex
 import warnings
 
 import numpy as np
@@ -370,7 +371,7 @@ class IllustrisCatalogs(SimCatalogs):
             wget_cmd += '--header="API-Key: {}" '.format(self.api_key)
             wget_cmd += '"http://www.tng-project.org/api/{}'.format(self.sim)
             wget_cmd += '/files/groupcat-{}/?format=api" '.format(i)
-            wget_cmd += '-P {}'.format(file_path)
+            wget_cmd += '-P {}'.format(shlex.quote(file_path))
 
             # Download the data and check that it all arrives, retry if it doesn't
             print("\nDownloading Snapshot {}".format(i))
-- 
2.43.0


From 2b05d17fd9f30110bb01157b22023298f5bf9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 82/88] fix: count Illustris/TNG snapshots as downloaded when
 all their files are there and whole

---
 simim/siminterface/illustris.py | 40 ++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index a963e1c..ae2030b 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -3,12 +3,25 @@ import requests
 import shlex
 import warnings
 
+from fnmatch import fnmatch
+
+import h5py
 import numpy as np
 
 from simim.siminterface import _illustris_datahandling as idh
 from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
 
+def _is_complete(path):
+    """Check that an hdf5 file exists and isn't truncated"""
+    if not os.path.exists(path):
+        return False
+    try:
+        with h5py.File(path,'r'):
+            return True
+    except OSError:
+        return False
+
 class IllustrisCatalogs(SimCatalogs):
     """Class to download and format Illustris or TNG group catalogs"""
 
@@ -339,6 +352,24 @@ class IllustrisCatalogs(SimCatalogs):
         """Get path to a snapshot's raw file"""
         return [os.path.join('groups_{:03d}'.format(snapshot))]
 
+    def _get_missing(self, snapshot):
+        """Get the names of a snapshot's raw files that haven't been (completely)
+        downloaded yet. Without metadata only the first file is known"""
+
+        file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(snapshot))
+        n_files = self.metadata['groupcat_number_files'] if self.metadata else 1
+        names = [self.raw_fname+'{:03d}.{}.hdf5'.format(snapshot,j) for j in range(n_files)]
+
+        return [name for name in names if not _is_complete(os.path.join(file_path,name))]
+
+    def _clean_partial(self, snapshot):
+        """Remove files of a snapshot left behind by an interrupted download"""
+
+        file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(snapshot))
+        for name in os.listdir(file_path):
+            if fnmatch(name,self.raw_fname+'*.hdf5') and not _is_complete(os.path.join(file_path,name)):
+                os.remove(os.path.join(file_path,name))
+
     def download(self, redownload=False):
         """Download Illustris/TNG subhalo (group) catalogs"""
 
@@ -351,8 +382,7 @@ class IllustrisCatalogs(SimCatalogs):
         else:
             self.download_snaps = []
             for i in self.snaps:
-                file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
-                if os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.0.hdf5'.format(i))):
+                if len(self._get_missing(i)) == 0:
                     warnings.warn("Skipping snapshot {} as it appears to exist already".format(i))
                 else:
                     self.download_snaps.append(i)
@@ -364,6 +394,7 @@ class IllustrisCatalogs(SimCatalogs):
             file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
             if not os.path.exists(file_path):
                 os.mkdir(file_path)
+            self._clean_partial(i)
 
             # Construcg wget command
             wget_cmd  = 'wget -nd -nc -nv -e robots=off '
@@ -379,15 +410,14 @@ class IllustrisCatalogs(SimCatalogs):
             try:
                 while not check_pass:
                     os.system(wget_cmd)
+                    self._clean_partial(i)
 
                     # If there's no meta-data saved we can't check if the right
                     # files have arrived
                     if not self.metadata:
                         check_pass = True
                     else:
-                        check = [os.path.exists(os.path.join(file_path,self.raw_fname+'{:03d}.{}.hdf5'.format(i,j)))
-                                 for j in range(self.metadata['groupcat_number_files'])]
-                        check_pass = np.all(check)
+                        check_pass = len(self._get_missing(i)) == 0
 
                     if not check_pass:
                         print("Not all files downloaded correctly, retrying")
-- 
2.43.0


From 4b87df2aa2acfd89e4a0106f305af2ad00051a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 83/88] fix: download existing Illustris/TNG files again when
 told to

---
 simim/siminterface/illustris.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simim/siminterface/illustris.py b/simim/siminterface/illustris.py
index ae2030b..e7c0e5f 100644
--- a/simim/siminterface/illustris.py
+++ b/simim/siminterface/illustris.py
@@ -9,7 +9,7 @@ import h5py
 import numpy as np
 
 from simim.siminterface import _illustris_datahandling as idh
-from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot
+from simim.siminterface._rawsiminterface import SimCatalogs, Snapshot, _remove
 from simim.siminterface._sims import _checksim, _illsims, _tngsims
 
 def _is_complete(path):
@@ -390,8 +390,10 @@ class IllustrisCatalogs(SimCatalogs):
         # Download each snap
         for i in self.download_snaps:
 
-            # Create destination for the files:
+            # Create destination for the files, wget keeps those that exist:
             file_path = os.path.join(self.path,'raw','groups_{:03d}'.format(i))
+            if redownload:
+                _remove(file_path)
             if not os.path.exists(file_path):
                 os.mkdir(file_path)
             self._clean_partial(i)
-- 
2.43.0


From a41280ab7f6d89a07a0dd859276ee8bfde653402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 84/88] fix: put a snapshot into the formatted file only once
 it is complete

---
 simim/siminterface/_rawsiminterface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/simim/siminterface/_rawsiminterface.py b/simim/siminterface/_rawsiminterface.py
index 76355e9..fef0d0a 100644
--- a/simim/siminterface/_rawsiminterface.py
+++ b/simim/siminterface/_rawsiminterface.py
@@ -547,9 +547,8 @@ class SimCatalogs():
             # Now put it in the file
             with h5py.File(os.path.join(self.path,'data.hdf5'), "a") as file:
 
-                if "Snapshot {}".format(snap) in file.keys():
-                    del file["Snapshot {}".format(snap)]
-                snap_grp = file.create_group("Snapshot {}".format(snap))
+                # The group gets its name only once it is complete
+                snap_grp = file.create_group(None)
 
                 snap_grp.create_dataset('mass_cuts',data=mass_cuts)
 
@@ -576,6 +575,10 @@ class SimCatalogs():
                 snap_meta = self.snap_meta[self.snap_meta['index'] == snap]
                 snap_grp.attrs['metadata'] = snap_meta
 
+                if "Snapshot {}".format(snap) in file.keys():
+                    del file["Snapshot {}".format(snap)]
+                file["Snapshot {}".format(snap)] = snap_grp
+
                 # Keeps old metadata - maybe I should be updating all metadata though since some things are
                 # relative to other snaps
                 meta_snaps = file.attrs['snapshots']
-- 
2.43.0


From ee93f6f2a0ce8724f77c479bb0a4a031d40df225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 85/88] fix: leave the caller's plotkws as they are in
 Handler.plot

---
 simim/_handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simim/_handlers.py b/simim/_handlers.py
index 92b3f61..2c5c7d0 100644
--- a/simim/_handlers.py
+++ b/simim/_handlers.py
@@ -606,6 +606,7 @@ class Handler():
         fig.subplots_adjust(left=.15,right=.95,bottom=.15,top=.95)
         ax.set(**axkws)
         
+        plotkws = dict(plotkws)
         if 'ls' not in plotkws and 'linestyle' not in plotkws:
             plotkws['ls'] = ''
         if 'marker' not in plotkws:
-- 
2.43.0


From 2a6b3d2d9157c445a8a527fc6537b835fc3b0e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 86/88] fix: draw the beam with x across and y up in
 plot_detector_response

---
 simim/instrument/instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simim/instrument/instrument.py b/simim/instrument/instrument.py
index 8b2feec..d17cc55 100644
--- a/simim/instrument/instrument.py
+++ b/simim/instrument/instrument.py
@@ -1069,7 +1069,7 @@ class Instrument:
 
             x = np.linspace(xmin,xmax,100)
             y = np.linspace(ymin,ymax,100)
-            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0],vmin=0)
+            axes[1].pcolor(x,y,d.spatial_response(x,y,fs_d,**d.spatial_kwargs)[:,:,0].T,vmin=0)
 
         plt.show()
 
-- 
2.43.0


From ad0cb4047abb827835fa6958d4be0411a80d3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 87/88] fix: draw Grid.visualize's cells where they are,
 whatever the order of ax and the space

---
 simim/map/gridder.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index ad8d4be..a63d4f4 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1843,8 +1843,10 @@ class Grid():
             raise ValueError("visualize only works for 2D or larger maps")
 
         fig, plot = plt.subplots(figsize=figsize)
-        plot.set(xlabel='Axis {} [{}]'.format(ax[0],self.axunits[ax[0]]))
-        plot.set(ylabel='Axis {} [{}]'.format(ax[1],self.axunits[ax[1]]))
+        plot_axes = [self.fourier_axes[i] if self.fourier_space[i] else self.axes[i] for i in ax]
+        plot_units = [self.fourier_axunits[i] if self.fourier_space[i] else self.axunits[i] for i in ax]
+        plot.set(xlabel='Axis {} [{}]'.format(ax[0],plot_units[0]))
+        plot.set(ylabel='Axis {} [{}]'.format(ax[1],plot_units[1]))
         plot.set(**axkws)
         
         if len(ax) != 2:
@@ -1866,7 +1868,11 @@ class Grid():
                     slice_idx += 1
             image = self.grid[tuple(slices)][:,:,property]
 
-        cb=plot.pcolor(self.axes[ax[0]],self.axes[ax[1]],image.real.T,**plotkws)
+        # The axes of image are in the order of the grid, pcolor wants (y,x)
+        if ax[0] < ax[1]:
+            image = image.T
+
+        cb=plot.pcolor(plot_axes[0],plot_axes[1],image.real,**plotkws)
         fig.colorbar(cb)
         plt.show()
 
-- 
2.43.0


From 0dd2d6deb9274ee6fe5b73ea56a8120d608e7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 88/88] fix: let Grid.animate show the right slices, at their
 places

---
 simim/map/gridder.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/simim/map/gridder.py b/simim/map/gridder.py
index a63d4f4..2ab1a53 100644
--- a/simim/map/gridder.py
+++ b/simim/map/gridder.py
@@ -1907,31 +1907,23 @@ class Grid():
         flatten_dims = np.setdiff1d(np.arange(self.n_dimensions),np.concatenate(([slide_dim],face_dims)))
 
         if self.fourier_space[slide_dim]:
-            ax0 = self.fourier_axes_centers[slide_dim]
+            slide_ax = self.fourier_axes_centers[slide_dim]
         else:
-            ax0 = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
-        slide_ax = np.copy(ax0)
-        ax0 = _axis_edges(np.copy(ax0))
+            slide_ax = self.axes_centers[slide_dim] - self.pixel_size[slide_dim]/2
 
-        if self.fourier_space[face_dims[0]]:
-            ax1 = self.fourier_axes_centers[face_dims[0]]
-        else:
-            ax1 = self.axes_centers[face_dims[0]]
-        ax1 = _axis_edges(np.copy(ax1))
+        ax0,ax1,ax2 = [np.copy(self.fourier_axes[i] if self.fourier_space[i] else self.axes[i])
+                       for i in (slide_dim,face_dims[0],face_dims[1])]
 
-        if self.fourier_space[face_dims[1]]:
-            ax2 = self.fourier_axes_centers[face_dims[1]]
-        else:
-            ax2 = self.axes_centers[face_dims[1]]
-        ax2 = _axis_edges(np.copy(ax2))
+        # Position of slide_dim once flatten_dims have been summed over
+        slide_dim_flat = slide_dim - np.sum(flatten_dims < slide_dim)
 
         # Determine property range allowed
         if logscale:
-            vmax = np.log10(np.amax(self.grid[...,prop_ind]))
+            vmax = np.log10(np.amax(self.grid[...,prop_ind].real))
             vmin = vmax-10
         else:
-            vmin = minrescale*np.amin(self.grid[...,prop_ind])
-            vmax = maxrescale*np.amax(self.grid[...,prop_ind])
+            vmin = minrescale*np.amin(self.grid[...,prop_ind].real)
+            vmax = maxrescale*np.amax(self.grid[...,prop_ind].real)
 
         # Set up plots
         figure = plt.figure(figsize=(10,5))
@@ -1956,10 +1948,10 @@ class Grid():
                      [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
 
         plot_face = plt.subplot(122)
-        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[0]))
+        plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i0]))
         # plot_face.set(xlabel='Axis {}'.format(face_dims[0]),ylabel='Axis {}'.format(face_dims[1]))
 
-        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim)
+        map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i0,axis=slide_dim_flat)
         if face_dims[0] < face_dims[1]:
             map_face = map_face.T
         if logscale:
@@ -1975,7 +1967,7 @@ class Grid():
             plot_face.set_title('Axis {} = {:.2f}'.format(slide_dim,slide_ax[i]))
             box.set_data([ax0[i],ax0[i],ax0[i+1],ax0[i+1],ax0[i]],
                          [ax2[0],ax2[-1],ax2[-1],ax2[0],ax2[0]])
-            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim)
+            map_face = np.take(np.sum(self.grid[...,prop_ind].real,axis=tuple(flatten_dims)),indices=i,axis=slide_dim_flat)
             if face_dims[0] < face_dims[1]:
                 map_face = map_face.T
             if logscale:
@@ -1983,6 +1975,7 @@ class Grid():
                 map_face[~np.isfinite(map_face)] = vmin
             face.set_array(map_face.ravel())
 
+        anim = None
         if not still:
             anim = animation.FuncAnimation(figure,animate,frames=nsteps,interval=500,blit=False)
             if save != None:
-- 
2.43.0

