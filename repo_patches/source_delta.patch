From 56e785a239a61638cf7226e4e5c4ae875d69cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 01/82] fix: sky conversions use the current phase space and
 keep the centre offset

---
 clustertools/cluster/operations.py | 102 ++++++++++++++++-------------
 1 file changed, 57 insertions(+), 45 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index db30073..1399ebd 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -31,6 +31,7 @@ __all__ = [
 ]
 
 from ..util.constants import *
+from ..analysis.orbits import initialize_orbit,initialize_orbits
 import numpy as np
 from galpy.orbit import Orbit
 from galpy.util import _rotate_to_arbitrary_vector
@@ -469,8 +470,12 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
             cluster.to_kpckms(analyze=False)
             cluster.to_galaxy()
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            #Always transform the current phase-space coordinates, as any previously
+            #initialized orbits may be out of date or relative to a different origin
+            orbit=initialize_orbit(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            orbits=initialize_orbits(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            if cluster.orbit is None: cluster.orbit=orbit
+            if cluster.orbits is None: cluster.orbits=orbits
 
             R, phi, z = coords.rect_to_cyl(cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
             vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc+cluster.vxc, cluster.vygc+cluster.vyc, cluster.vzgc+cluster.vzc,cluster.xgc+cluster.xc, cluster.ygc+cluster.yc, cluster.zgc+cluster.zc)
@@ -479,19 +484,19 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
                 [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
             )
 
-            cluster.ra=cluster.orbits.ra()
-            cluster.dec=cluster.orbits.dec()
-            cluster.dist=cluster.orbits.dist()
-            cluster.pmra=cluster.orbits.pmra()
-            cluster.pmdec=cluster.orbits.pmdec()
-            cluster.vlos=cluster.orbits.vlos()
+            cluster.ra=orbits.ra()
+            cluster.dec=orbits.dec()
+            cluster.dist=orbits.dist()
+            cluster.pmra=orbits.pmra()
+            cluster.pmdec=orbits.pmdec()
+            cluster.vlos=orbits.vlos()
 
-            cluster.ra_gc=cluster.orbit.ra()
-            cluster.dec_gc=cluster.orbit.dec()
-            cluster.dist_gc=cluster.orbit.dist()
-            cluster.pmra_gc=cluster.orbit.pmra()
-            cluster.pmdec_gc=cluster.orbit.pmdec()
-            cluster.vlos_gc=cluster.orbit.vlos()
+            cluster.ra_gc=orbit.ra()
+            cluster.dec_gc=orbit.dec()
+            cluster.dist_gc=orbit.dist()
+            cluster.pmra_gc=orbit.pmra()
+            cluster.pmdec_gc=orbit.pmdec()
+            cluster.vlos_gc=orbit.vlos()
 
             cluster.ra_c=oc.ra()
             cluster.dec_c=oc.dec()
@@ -561,11 +566,26 @@ def from_radec(cluster, sortstars=True):
 
         if cluster.units == "radec" and cluster.origin == "sky":
 
-            if cluster.orbit is None: cluster.initialize_orbit(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            if cluster.orbits is None: cluster.initialize_orbits(ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            #Always transform the current phase-space coordinates, as any previously
+            #initialized orbits may be out of date or relative to a different origin
+            orbit=initialize_orbit(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            orbits=initialize_orbits(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            if cluster.orbit is None: cluster.orbit=orbit
+            if cluster.orbits is None: cluster.orbits=orbits
 
+            #If the sky coordinates of the centre have been set, get its position relative to xgc,ygc,zgc
+            if np.any([cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c]):
+                oc = Orbit(
+                    [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+                )
 
-            if cluster.xcn is not None:
+                cluster.xc=oc.x()-orbit.x()
+                cluster.yc=oc.y()-orbit.y()
+                cluster.zc=oc.z()-orbit.z()
+                cluster.vxc=oc.vx()-orbit.vx()
+                cluster.vyc=oc.vy()-orbit.vy()
+                cluster.vzc=oc.vz()-orbit.vz()
+            elif cluster.xcn is not None:
                 cluster.xc,cluster.yc,cluster.zc=cluster.xcn,cluster.ycn,cluster.zcn
                 cluster.xc*=cluster.rbar/1000.
                 cluster.yc*=cluster.rbar/1000.
@@ -573,32 +593,23 @@ def from_radec(cluster, sortstars=True):
                 cluster.vxc=0.
                 cluster.vyc=0.
                 cluster.vzc=0.
-
             else:
-                oc = Orbit(
-                    [cluster.ra_c,cluster.dec_c,cluster.dist_c,cluster.pmra_c,cluster.pmdec_c,cluster.vlos_c], radec=True,ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
-                )
-
-                cluster.xc=oc.x()
-                cluster.yc=oc.y()
-                cluster.zc=oc.z()
-                cluster.vxc=oc.vx()
-                cluster.vyc=oc.vy()
-                cluster.vzc=oc.vz()
-
-            cluster.x = cluster.orbits.x()
-            cluster.y = cluster.orbits.y()
-            cluster.z = cluster.orbits.z()
-            cluster.vx = cluster.orbits.vx()
-            cluster.vy = cluster.orbits.vy()
-            cluster.vz = cluster.orbits.vz()
-
-            cluster.xgc = cluster.orbit.x()
-            cluster.ygc = cluster.orbit.y()
-            cluster.zgc = cluster.orbit.z()
-            cluster.vxgc = cluster.orbit.vx()
-            cluster.vygc = cluster.orbit.vy()
-            cluster.vzgc = cluster.orbit.vz()
+                cluster.xc,cluster.yc,cluster.zc=0.,0.,0.
+                cluster.vxc,cluster.vyc,cluster.vzc=0.,0.,0.
+
+            cluster.x = orbits.x()
+            cluster.y = orbits.y()
+            cluster.z = orbits.z()
+            cluster.vx = orbits.vx()
+            cluster.vy = orbits.vy()
+            cluster.vz = orbits.vz()
+
+            cluster.xgc = orbit.x()
+            cluster.ygc = orbit.y()
+            cluster.zgc = orbit.z()
+            cluster.vxgc = orbit.vx()
+            cluster.vygc = orbit.vy()
+            cluster.vzgc = orbit.vz()
 
             cluster.origin = "galaxy"
             cluster.units = "kpckms"
@@ -1131,13 +1142,14 @@ def _get_orthographic_centre(cluster,from_centre=False):
             + np.sin(dec) * np.sin(dec_gc) * np.cos(ra - ra_gc)
         )
 
-        cluster.vx-=cluster.vxgc
-        cluster.vy-=cluster.vygc
-
         if from_centre:
             cluster.z -= cluster.zc
+            cluster.vx -= cluster.vxc
+            cluster.vy -= cluster.vyc
             cluster.vz -= cluster.vzc
         else:
+            cluster.vx -= cluster.vxgc
+            cluster.vy -= cluster.vygc
             cluster.z -= cluster.zgc
             cluster.vz -= cluster.vzgc
 
-- 
2.43.0


From 1d73ab4403af9c3744845c63aa2efa732c3a9ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 02/82] fix: analysis calls no longer overwrite the state
 stored by save_cluster

---
 clustertools/analysis/functions.py | 80 ++++++++++++------------------
 clustertools/analysis/orbits.py    | 15 ++----
 clustertools/analysis/profiles.py  | 45 +++++++----------
 clustertools/cluster/cluster.py    | 21 ++++----
 clustertools/io/load.py            |  3 +-
 clustertools/util/coordinates.py   |  9 ++--
 clustertools/util/output.py        |  9 ++--
 clustertools/util/plots.py         |  3 +-
 8 files changed, 71 insertions(+), 114 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a40b6fd..ddf524a 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -115,8 +115,7 @@ def find_centre(
     2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -244,8 +243,7 @@ def find_centre_of_density(
     2022 - Written - Webb (UofT) - add method=='casertano'
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
     if cluster.units=='amuse':
         cluster.to_pckms()
 
@@ -482,10 +480,9 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     2020 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -554,10 +551,9 @@ def half_mass_relaxation_time(cluster, coulomb=0.4, projected=False):
        2019 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -619,10 +615,9 @@ def core_relaxation_time(cluster, coulomb=0.4, projected=False):
     2019 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -690,10 +685,9 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
     if ids is None:
         ids=kwargs.get('i_d',None)
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_cluster(sortstars=False)
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -999,13 +993,12 @@ def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
        2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -1122,12 +1115,11 @@ def virial_radius_inverse_distance(cluster, projected=False, full=True):
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse': cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
 
@@ -1245,10 +1237,9 @@ def virial_radius_critical_density(
     2019 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
         cluster.sortstars()
@@ -1413,8 +1404,7 @@ def mass_function(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -1589,8 +1579,7 @@ def tapered_mass_function(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -1750,8 +1739,7 @@ def eta_function(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -1914,8 +1902,7 @@ def meq_function(
     -------
     2020
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -2004,8 +1991,7 @@ def ckin(
     -------
     2020
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -2105,13 +2091,12 @@ def rcore(
     2021 - Written - Webb (UofT)
     2022 - Written - Webb (UofT) - add method='casertano'
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'centre':
+    if origin0 != 'centre':
         if cluster.xc==0. and cluster.yc==0. and cluster.zc==0.0:
             if method=='casertano':
                 cluster.find_centre(method='casertano')
@@ -2362,15 +2347,14 @@ def rtidal(
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
     ro,vo,zo,solarmotion=cluster._ro,cluster._vo,cluster._zo,cluster._solarmotion
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
     cluster.to_galpy()
@@ -2471,14 +2455,14 @@ def rtidal(
         x=np.append(x,x)
         y=np.append(y,-y)
 
-        if cluster.origin0=='galaxy':
+        if origin0=='galaxy':
             if from_centre:
                 x+=(cluster.xgc+cluster.xc)
                 y+=(cluster.ygc+cluster.yc)
             else:
                 x+=cluster.xgc
                 y+=cluster.ygc
-        elif cluster.origin0=='cluster' and from_centre:
+        elif origin0=='cluster' and from_centre:
             x+=cluster.xc
             y+=cluster.yc
 
@@ -2539,15 +2523,14 @@ def rlimiting(
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     ro,vo,zo,solarmotion=cluster._ro,cluster._vo,cluster._zo,cluster._solarmotion
 
     mo=conversion.mass_in_msol(ro=ro,vo=vo)
     dens_in_msolpc2=(mo/ro**2.)/(1000.0**2.)
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=False)
 
     cluster.to_galpy()
@@ -2757,13 +2740,12 @@ def _rho_prof(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b7bbecc..cc5aa9e 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -89,8 +89,7 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
         )
     else:
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
         cluster.to_galpy()
 
@@ -166,8 +165,7 @@ def initialize_orbits(cluster, ro=None, vo=None, zo = None, solarmotion=None):
         print('NO METHOD FOR INITALIZING STELLAR ORBITS WITH RESPET TO CENTRE OR CLUSTER WHEN UNITS==RADEC')
     else:
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
         cluster.to_galpy()
      
@@ -377,8 +375,7 @@ def interpolate_orbit(
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -459,8 +456,7 @@ def interpolate_orbits(
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -842,8 +838,7 @@ def orbital_path_match(
     if zo is None: zo=cluster._zo
     if solarmotion is None: solarmotion=cluster._solarmotion
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if skypath:
         cluster.to_radec()
diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8dc491c..7c60063 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -102,13 +102,12 @@ def rho_prof(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -289,13 +288,12 @@ def m_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -484,13 +482,12 @@ def alpha_prof(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -692,13 +689,12 @@ def sigv_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -917,13 +913,12 @@ def beta_prof(
     -------
     2020 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1122,13 +1117,12 @@ def v_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1348,13 +1342,12 @@ def v2_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1572,13 +1565,12 @@ def eta_prof(
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     elif normalize:
         cluster.sortstars()
@@ -1915,13 +1907,12 @@ def vcirc_prof(
     -------
     2019 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if cluster.units=='amuse':
         cluster.to_pckms()
 
-    if cluster.origin0 != 'cluster' and cluster.origin0 != 'centre':
+    if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre(sortstars=normalize)
     else:
         cluster.sortstars()
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e08576f..0a1849b 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2001,10 +2001,10 @@ class StarCluster(object):
         -------
         2018 - Written - Webb (UofT)
         """
-        if units0 is None: units0=self.units0
-        if origin0 is None: origin0=self.origin0
-        if rorder0 is None: rorder0=self.rorder0
-        if rorder_origin0 is None: rorder_origin0=self.rorder_origin0
+        if units0 is None: units0=getattr(self,'units0',None)
+        if origin0 is None: origin0=getattr(self,'origin0',None)
+        if rorder0 is None: rorder0=getattr(self,'rorder0',None)
+        if rorder_origin0 is None: rorder_origin0=getattr(self,'rorder_origin0',None)
 
         return_cluster(self, units0, origin0, rorder0, rorder_origin0, sortstars=sortstars)
 
@@ -2102,10 +2102,9 @@ class StarCluster(object):
 
         self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
 
-        self.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
 
-        if self.origin0 != 'cluster' and self.origin0 != 'centre':
+        if origin0 != "cluster" and origin0 != "centre":
             self.to_centre(sortstars=False)
 
         self.vx *= self.qv
@@ -2512,10 +2511,9 @@ class StarCluster(object):
         if projected == None:
             projected=self.projected
 
-        self.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = self.units0,self.origin0, self.rorder0, self.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
 
-        if self.origin0 != 'cluster' and self.origin0 != 'centre':
+        if origin0 != "cluster" and origin0 != "centre":
             self.to_cluster(sortstars=False)
         if self.units=='amuse':
             self.to_pckms()
@@ -4020,8 +4018,7 @@ def sub_cluster(
     2018 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
 
     if projected:
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 79aff57..34cbc6a 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -333,8 +333,7 @@ def load_cluster(
                 orbit.vz(t) / 220.0,
             )
 
-        cluster.save_cluster()
-        units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
         if cluster.origin is not None: 
             cluster.to_cluster(sortstars=False)
diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea2d779..758abc1 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -47,8 +47,7 @@ def sphere_coords(cluster):
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
         cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
@@ -162,8 +161,7 @@ def cyl_coords(cluster):
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
         cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
@@ -241,8 +239,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     -------
     2018 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
 
diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 6437b57..05b864d 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -185,8 +185,7 @@ def sseout(cluster, filename):
     -------
     2021 - Written - Webb (UofT)
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_pckms()
 
@@ -242,8 +241,7 @@ def fortout(
     2019 - Written - Webb (UofT)
 
     """
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_centre(sortstars=False)
 
@@ -320,8 +318,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
     mcon = 222288.4543021174
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_galaxy(sortstars=False)
     cluster.to_kpckms()
diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index ffe9f55..c116f30 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -817,8 +817,7 @@ def skyplot(
     2018 - Written - Webb (UofT)
     """
 
-    cluster.save_cluster()
-    units0,origin0, rorder0, rorder_origin0 = cluster.units0,cluster.origin0, cluster.rorder0, cluster.rorder_origin0
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     cluster.to_radec(sortstars=False)
 
-- 
2.43.0


From f8c10c6bb64389044915a1d695be8840e12e2867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 03/82] fix: radial orderings follow the current contents of
 the cluster

---
 clustertools/cluster/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0a1849b..b9dce35 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1504,12 +1504,12 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
 
         """
-        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder):
+        if self. rorder is None or self.rorder_origin!=self.origin or len(self.r)!=len(self.rorder) or np.any(self.r[self.rorder[1:]]<self.r[self.rorder[:-1]]):
 
             self.rorder = np.argsort(self.r)
             self.rorder_origin=self.origin
 
-        if (self. rproorder is None or self.rorder_origin!=self.origin or len(self.rpro)!=len(self.rproorder)) and (projected or self.projected):
+        if (self. rproorder is None or len(self.rpro)!=len(self.rproorder) or np.any(self.rpro[self.rproorder[1:]]<self.rpro[self.rproorder[:-1]])) and (projected or self.projected):
             self.rproorder = np.argsort(self.rpro)
 
     def _analysis_check(self,sortstars=True,projected=False):
@@ -4144,7 +4144,7 @@ def sub_cluster(
                     cluster.logr2[bindx],
                 )
 
-        if len(cluster.etot) > 0:
+        if len(cluster.etot) == cluster.ntot:
             subcluster.add_energies(
                 cluster.kin[indx], cluster.pot[indx],
             )
-- 
2.43.0


From 45ee47975b7fc342a9fba2da28d823d3ab7392ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 04/82] fix: profiles bin and select the stars they were asked
 for

vcirc_prof applied an unordered selection to ordered arrays and used stale
orderings, eta_prof ignored indx/npop and the projected radius, alpha_prof
ignored kwmin/kwmax, v_prof and v2_prof left vz undefined
---
 clustertools/analysis/profiles.py | 44 ++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 7c60063..e5b22de 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -545,10 +545,10 @@ def alpha_prof(
         rindx = indx * (bin_idx==i)
 
         if return_error:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, mbinerror = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=mcorr,plot=False,**kwargs)
             rbinerror[i]=np.amin(mbinerror)
         else:
-            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
+            m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(cluster,nmass=nmass,kwmin=kwmin,kwmax=kwmax,indx=rindx,projected=projected,mcorr=None,plot=False,**kwargs)
             rbinerror[i]=1.
 
         if alpha > -100:
@@ -1181,6 +1181,7 @@ def v_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz = cluster.vz
 
         if coord =='r':
             v=vr
@@ -1408,6 +1409,7 @@ def v2_prof(
             )
         else:
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
+            vz = cluster.vz
 
         if coord =='r':
             v=vr
@@ -1624,9 +1626,11 @@ def eta_prof(
         r_lower, r_mean, r_upper=bins[0],bins[1],bins[2]
         r_hist=np.zeros(len(r_mean))
     elif kwargs.pop('bintype','num')=='fix':
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r[indx], nrad)
     else:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r[indx], nrad)
+
+    bin_idx = bin_index(r,r_lower,r_upper)
 
     if normalize:
         if projected:
@@ -1640,17 +1644,14 @@ def eta_prof(
 
     for i in range(0, len(r_mean)):
 
+        rindx = indx * (bin_idx==i)
+
         m_mean, sigvm, eta, eeta, yeta, eyeta = eta_function(
             cluster,
-            mmin=mmin,
-            mmax=mmax,
             nmass=nmass,
-            rmin=r_lower[i],
-            rmax=r_upper[i],
-            vmin=vmin,
-            vmax=vmax,
             kwmin=kwmin,
             kwmax=kwmax,
+            indx=rindx,
             projected=projected,
             meq=meq,
             **kwargs,
@@ -1913,20 +1914,22 @@ def vcirc_prof(
         cluster.to_pckms()
 
     if origin0 != 'cluster' and origin0 != 'centre':
-        cluster.to_centre(sortstars=normalize)
+        cluster.to_centre(sortstars=True)
     else:
         cluster.sortstars()
 
     grav=_get_grav(cluster)
 
     if projected:
-        r = cluster.rpro[cluster.rproorder]
-        v = cluster.vpro[cluster.rproorder]
-        m = cluster.m[cluster.rproorder]
+        order = cluster.rproorder
+        r = cluster.rpro[order]
+        v = cluster.vpro[order]
+        m = cluster.m[order]
     else:
-        r = cluster.r[cluster.rorder]
-        v = cluster.v[cluster.rorder]
-        m = cluster.m[cluster.rorder]
+        order = cluster.rorder
+        r = cluster.r[order]
+        v = cluster.v[order]
+        m = cluster.m[order]
 
 
     """
@@ -1967,6 +1970,9 @@ def vcirc_prof(
 
     indx=cluster.subset(rmin=rmin,rmax=rmax,vmin=vmin,vmax=vmax,mmin=mmin,mmax=mmax,emin=emin,emax=emax,kwmin=kwmin,kwmax=kwmax,npop=npop,indx=indx,projected=projected)
 
+    #r, v and m are ordered by radius, so the selection must be as well
+    indx=indx[order]
+
     r = r[indx]
     v = v[indx]
     m = m[indx]
@@ -1982,12 +1988,12 @@ def vcirc_prof(
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='fix' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = binmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = binmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
     elif kwargs.get('bintype','num')=='num' and nrad is not None:
-        r_lower, r_mean, r_upper, r_hist = nbinmaker(cluster.r[indx], nrad)
+        r_lower, r_mean, r_upper, r_hist = nbinmaker(r, nrad)
         args=np.zeros(len(r_mean))
         for i in range(0,len(args)):
             args[i]=np.argmin(np.fabs(r-r_mean[i]))
-- 
2.43.0


From 6f167e3534abeb6f5a7902648b44eb208ef75f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 05/82] fix: sky_coords, sphere_coords and cyl_coords can be
 called from any origin

---
 clustertools/util/coordinates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index 758abc1..ea3cc39 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -50,7 +50,7 @@ def sphere_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -164,7 +164,7 @@ def cyl_coords(cluster):
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if origin0=='sky':
-        cluster.to_galaxy(ro=ro,vo=vo,solarmotion=solar_motion)
+        cluster.to_galaxy()
 
     if cluster.units=='amuse':
         cluster.to_pckms()
@@ -241,7 +241,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
     """
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
-    cluster.to_radec(ro=ro,vo=vo,solarmotion=solar_motion)
+    cluster.to_sky(sortstars=False)
 
     ra,dec,d0,pmra,pmdec,vr0=cluster.x,cluster.y,cluster.z,cluster.vx,cluster.vy,cluster.vz
 
-- 
2.43.0


From d23c2f1fd0d80c769da99afc4f851ce3cd04519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 06/82] fix: core_relaxation_time does not overwrite the stored
 core radius

---
 clustertools/analysis/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index ddf524a..c22a1c1 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -629,10 +629,10 @@ def core_relaxation_time(cluster, coulomb=0.4, projected=False):
     mtot=np.sum(cluster.m)
     mbar=np.mean(cluster.m)
     if projected:
-        rc=cluster.rcore(projected=True)
+        rc=rcore(cluster,projected=True)
         rh=cluster.rmpro
     else:
-        rc=cluster.rcore()
+        rc=rcore(cluster)
         rh=cluster.rm
 
     trc=(0.39/lnlambda)*np.sqrt(rc**3./(grav*mtot))*(mtot/mbar)*np.sqrt(rc*rh)/(rc+rh)
-- 
2.43.0


From 98ea883494f9147e24209e38a9fc4241974ced9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 07/82] fix: every way of computing potential energies gives
 the same answer

The parallel kernel raced on shared elements, the softened loop included the
self term and the ids path ignored projected
---
 clustertools/analysis/functions.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index c22a1c1..c9bb571 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -717,11 +717,16 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
         # Get gravitational constant
         grav = _get_grav(cluster)
 
-        kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+        if projected:
+            kin = 0.5 * cluster.m[ids] * cluster.vpro[ids]**2
+            z = np.zeros(len(cluster.x))
+        else:
+            kin = 0.5 * cluster.m[ids] * cluster.v[ids]**2
+            z = cluster.z
 
-        cluster_full = np.array([cluster.x, cluster.y, cluster.z, cluster.m]).T
+        cluster_full = np.array([cluster.x, cluster.y, z, cluster.m]).T
         cluster_sub  = np.array([cluster.x[ids], cluster.y[ids], 
-                                 cluster.z[ids], cluster.m[ids]]).T
+                                 z[ids], cluster.m[ids]]).T
 
         if parallel:
             pot = grav * np.array(_potential_energy_subset_parallel(cluster_sub, cluster_full,softening))
@@ -762,6 +767,7 @@ def energies(cluster, specific=True, ids=None, projected=False, softening=0.0, f
                 dr = np.sqrt(dx ** 2.0 + dy ** 2.0 + dz ** 2.0 + softening**2.)
 
             indx = dr != 0.0
+            indx[i] = False
             gmr = -grav * m[indx] / dr[indx]
 
             pot.append(np.sum(gmr))
@@ -834,15 +840,16 @@ def _potential_energy_parallel(cluster,softening=0.0):
        2019 - Written - Webb (UofT)
     """
     pot = [0.0] * len(cluster)
-    for i in numba.prange(len(cluster) - 1):
-        for j in range(i + 1, len(cluster)):
-            r = distance(cluster[i], cluster[j])
+    #Each iteration only writes its own element, as iterations run concurrently
+    for i in numba.prange(len(cluster)):
+        for j in range(len(cluster)):
+            if i != j:
+                r = distance(cluster[i], cluster[j])
 
-            if r==0: r=np.nan
+                if r==0: r=np.nan
 
-            m2 = cluster[i, 3] * cluster[j, 3]
-            pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
-            pot[j] += -m2 / np.sqrt(r**2.+softening**2.)
+                m2 = cluster[i, 3] * cluster[j, 3]
+                pot[i] += -m2 / np.sqrt(r**2.+softening**2.)
 
     return pot
 
-- 
2.43.0


From 776f0ba4b2bbb8db5a97bfd6c1a17ff15b32faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 08/82] fix: closest_star works in AMUSE units

---
 clustertools/analysis/functions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index c9bb571..69c69d6 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -963,6 +963,11 @@ def closest_star(cluster, projected=False, argument=False):
 
     else:
 
+        units0=cluster.units
+
+        if units0=='amuse':
+            cluster.to_pckms(analyze=False)
+
         if projected:
             x=np.column_stack([cluster.x,cluster.y])
         else:
@@ -970,11 +975,16 @@ def closest_star(cluster, projected=False, argument=False):
 
         tree=cKDTree(x)
         dist, arg = tree.query(x, k=2)
+        dist, arg = dist[:,1], arg[:,1]
+
+        if units0=='amuse':
+            cluster.to_amuse(analyze=False)
+            dist=dist | u.parsec
 
         if argument:
-            return dist[:,1],arg[:,1]
+            return dist,arg
         else:
-            return dist[:,1]
+            return dist
 
 def rlagrange(cluster, nlagrange=10, mfrac=None, projected=False):
     """Calculate lagrange radii of the cluster by mass
-- 
2.43.0


From 60b8b4280b59bbf1a0b897ba687f4a50c024e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 09/82] fix: keep arrays aligned when adding stars, binaries
 and stellar evolution in several batches

---
 clustertools/cluster/cluster.py | 118 ++++++++++++++++----------------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index b9dce35..75c5d59 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -491,11 +491,8 @@ class StarCluster(object):
 
         #Check for binaries
         if nb>0:
-            if nb==1:
-                arg1,arg2=0,1
-            else:
-                arg1=np.arange(0,2*nb-1,2)
-                arg2=arg1+1
+            arg1=np.arange(0,2*nb-1,2)
+            arg2=arg1+1
 
             if m is None:
                 xcom,ycom,zcom,vxcom,vycom,vzcom,mcom=self.add_binary_stars(x[arg1],y[arg1],z[arg1],vx[arg1],vy[arg1],vz[arg1],x[arg2],y[arg2],z[arg2],vx[arg2],vy[arg2],vz[arg2],return_com=True)
@@ -733,37 +730,34 @@ class StarCluster(object):
         else:
             self.nb+=len(xb1)
 
-        self.xb1=np.append(self.xb1,xb1)
-        self.yb1=np.append(self.yb1,yb1)
-        self.zb1=np.append(self.zb1,zb1)
-        self.vxb1=np.append(self.vxb1,vxb1)
-        self.vyb1=np.append(self.vyb1,vyb1)
-        self.vzb1=np.append(self.vzb1,vzb1)
-
-        self.xb2=np.append(self.xb2,xb2)
-        self.yb2=np.append(self.yb2,yb2)
-        self.zb2=np.append(self.zb2,zb2)
-        self.vxb2=np.append(self.vxb2,vxb2)
-        self.vyb2=np.append(self.vyb2,vyb2)
-        self.vzb2=np.append(self.vzb2,vzb2)
-
-        if mb1 is not None:
-            self.mb1=np.append(self.mb1,mb1)
-        else:
-            self.mb1=np.append(self.mb1,np.ones(len(xb1)))
-        if mb2 is not None:
-            self.mb2=np.append(self.mb2,mb2)
-        else:
-            self.mb2=np.append(self.mb2,np.ones(len(xb2)))
+        self.xb1=np.append(xb1,self.xb1)
+        self.yb1=np.append(yb1,self.yb1)
+        self.zb1=np.append(zb1,self.zb1)
+        self.vxb1=np.append(vxb1,self.vxb1)
+        self.vyb1=np.append(vyb1,self.vyb1)
+        self.vzb1=np.append(vzb1,self.vzb1)
+
+        self.xb2=np.append(xb2,self.xb2)
+        self.yb2=np.append(yb2,self.yb2)
+        self.zb2=np.append(zb2,self.zb2)
+        self.vxb2=np.append(vxb2,self.vxb2)
+        self.vyb2=np.append(vyb2,self.vyb2)
+        self.vzb2=np.append(vzb2,self.vzb2)
+
+        if mb1 is None: mb1=np.ones(np.size(xb1))
+        if mb2 is None: mb2=np.ones(np.size(xb2))
+
+        self.mb1=np.append(mb1,self.mb1)
+        self.mb2=np.append(mb2,self.mb2)
 
         if set_com and not return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             self.x = np.append(xcom,self.x)
             self.y = np.append(ycom,self.y)
@@ -779,17 +773,17 @@ class StarCluster(object):
                 else:
                     idstart=0
 
-                ids=idstart+np.linspace(0,len(xcom)-1,len(xcom))*2
+                ids=idstart+np.arange(0,len(xcom),dtype=int)*2
             else:
                 ids=id1
-                self.id1=np.append(self.id1,id1)
+                self.id1=np.append(id1,self.id1)
 
             self.id=np.append(ids,self.id)
 
             if id2 is not None:
-                self.id2=np.append(self.id2,id2)
+                self.id2=np.append(id2,self.id2)
             else:
-                self.id2=np.append(self.id2,ids+1)
+                self.id2=np.append(ids+1,self.id2)
 
             if m01 is not None and m02 is not None:
                 self.m0=np.append(m01+m02,self.m0)
@@ -803,7 +797,10 @@ class StarCluster(object):
 
             if npop1 is not None and npop2 is not None:
                 npopb=np.maximum(npop1,npop2)
-                self.npop=np.append(npopb,self.npop).astype(int)
+            else:
+                npopb=np.ones(len(xcom))
+
+            self.npop=np.append(npopb,self.npop).astype(int)
 
             if npop1 is None:
                 self.npop1=np.append(np.ones(len(xcom)),self.npop1)
@@ -823,13 +820,13 @@ class StarCluster(object):
             self.ns=self.ntot-self.nb
 
         elif return_com:
-            mcom=self.mb1+self.mb2
-            xcom=(xb1*self.mb1+xb2*self.mb2)/mcom
-            ycom=(yb1*self.mb1+yb2*self.mb2)/mcom
-            zcom=(zb1*self.mb1+zb2*self.mb2)/mcom
-            vxcom=(vxb1*self.mb1+vxb2*self.mb2)/mcom
-            vycom=(vyb1*self.mb1+vyb2*self.mb2)/mcom
-            vzcom=(vzb1*self.mb1+vzb2*self.mb2)/mcom
+            mcom=mb1+mb2
+            xcom=(xb1*mb1+xb2*mb2)/mcom
+            ycom=(yb1*mb1+yb2*mb2)/mcom
+            zcom=(zb1*mb1+zb2*mb2)/mcom
+            vxcom=(vxb1*mb1+vxb2*mb2)/mcom
+            vycom=(vyb1*mb1+vyb2*mb2)/mcom
+            vzcom=(vzb1*mb1+vzb2*mb2)/mcom
 
             return xcom,ycom,zcom,vxcom,vycom,vzcom,mcom
 
@@ -1161,26 +1158,26 @@ class StarCluster(object):
             self.kw[nstart+arg.astype(int)] = np.asarray(kw)
             self.logl[nstart+arg.astype(int)] = np.asarray(logl)
             self.logr[nstart+arg.astype(int)] = np.asarray(logr)
-            self.ep[nstart+arg.astype(int)]= np.array(ep)
-            self.ospin[nstart+arg.astype(int)] = np.array(ospin)
+            if ep is not None: self.ep[nstart+arg.astype(int)]= np.array(ep)
+            if ospin is not None: self.ospin[nstart+arg.astype(int)] = np.array(ospin)
 
         else:
             self.kw = np.append(self.kw,kw)
             self.logl = np.append(self.logl,logl)
             self.logr = np.append(self.logr,logr)
 
-        self.lum = 10.0 ** self.logl
-        self.ltot = np.sum(self.lum)
+            if ep is not None: 
+                self.ep= np.append(self.ep,np.array(ep))
+            else:
+                self.ep= np.append(self.ep,np.zeros(len(kw)))
 
-        if ep is not None: 
-            self.ep= np.append(self.ep,np.array(ep))
-        else:
-            self.ep= np.append(self.ep,np.zeros(len(kw)))
+            if ospin is not None: 
+                self.ospin = np.append(self.ospin,np.array(ospin))
+            else:
+                self.ospin = np.append(self.ospin,np.zeros(len(kw)))
 
-        if ospin is not None: 
-            self.ospin = np.append(self.ospin,np.array(ospin))
-        else:
-            self.ospin = np.append(self.ospin,np.zeros(len(kw)))
+        self.lum = 10.0 ** self.logl
+        self.ltot = np.sum(self.lum)
 
     def add_bse(
         self,
@@ -1403,6 +1400,9 @@ class StarCluster(object):
         self.rmeanpro = np.mean(self.rpro)
         self.rmaxpro = np.max(self.rpro)
 
+        # An ordering of a different number of stars is out of date
+        if self.rorder is not None and len(self.rorder)!=len(self.r): sortstars=True
+
         if sortstars: self.sortstars(projected=projected)
 
         # Find half-mass radius
@@ -1422,7 +1422,7 @@ class StarCluster(object):
             self.r10pro = self.rpro[self.rproorder[indx][0]]
 
 
-        if len(self.lum) > 0 and self.rorder is not None:
+        if len(self.lum) > 0 and len(self.lum)==len(self.r) and self.rorder is not None:
             lsum = np.cumsum(self.lum[self.rorder])
             indx = lsum >= 0.5 * self.ltot
             self.rh = self.r[self.rorder[indx][0]]
-- 
2.43.0


From 40ae74f558605019170947fff044939a53e1fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 10/82] fix: sub-clusters carry the full header and selections
 leave the caller's mask alone

---
 clustertools/analysis/functions.py |  2 +-
 clustertools/cluster/cluster.py    | 21 ++++++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 69c69d6..ca846b8 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2401,7 +2401,7 @@ def rtidal(
     for i in range(0, rtiterate):
         msum = 0.0
 
-        indx *= cluster.r < rt
+        indx = indx * (cluster.r < rt)
         msum = np.sum(cluster.m[indx])
 
         rtnew = rtide(pot, R, z, M=msum,use_physical=False)
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 75c5d59..e367bbe 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3930,7 +3930,7 @@ def _get_subset(
 
     try:
 
-        indx *= (
+        indx = indx * (
             (r >= rmin)
             * (r <= rmax)
             * (cluster.m >= mmin)
@@ -4076,6 +4076,9 @@ def sub_cluster(
             cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale,
             cluster.ns,cluster.nb,cluster.n_p)
 
+        # The stored NBODY6 centre stays in NBODY units
+        subcluster.xcn, subcluster.ycn, subcluster.zcn = cluster.xcn, cluster.ycn, cluster.zcn
+
         subcluster.projected = cluster.projected
         subcluster.centre_method = cluster.centre_method
 
@@ -4144,6 +4147,11 @@ def sub_cluster(
                     cluster.logr2[bindx],
                 )
 
+            # add_bse counts the selected binaries
+            subcluster.ns = subcluster.ntot - subcluster.nb
+
+        subcluster.bunits = cluster.bunits
+
         if len(cluster.etot) == cluster.ntot:
             subcluster.add_energies(
                 cluster.kin[indx], cluster.pot[indx],
@@ -4203,14 +4211,21 @@ def sub_cluster(
                 cluster.vlos_gc,
             )
 
+            subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
+            subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            )
+
         if reset_nbody:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=True,radius=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=True,radii=True,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
         elif reset_nbody_mass or reset_nbody_radii:
             subcluster.to_pckms()
             subcluster.analyze()
-            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radius=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
+            subcluster.reset_nbody_scale(mass=reset_nbody_mass,radii=reset_nbody_radii,rvirial=reset_rvirial,projected=reset_projected,**kwargs)
 
     else:
         subcluster = StarCluster(cluster.tphys)
-- 
2.43.0


From 40f1413de5f3fb058f2ecf18cd9efa5683d6d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 11/82] fix: reset_nbody_scale passes keyword arguments to
 virial_radius once

---
 clustertools/cluster/operations.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 1399ebd..4bb2d08 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1433,13 +1433,13 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
     if radii:
         if rvirial:
 
-            method=kwargs.get("method", 'inverse_distance')
-            full=kwargs.get("full", True)
-            H = kwargs.get("H", 70.0)
-            Om = kwargs.get("Om", 0.3)
-            overdens = kwargs.get("overdens", 200.0)
-            nrad = kwargs.get("nrad", 20.0)
-            plot = kwargs.get("plot", False)
+            method=kwargs.pop("method", 'inverse_distance')
+            full=kwargs.pop("full", True)
+            H = kwargs.pop("H", 70.0)
+            Om = kwargs.pop("Om", 0.3)
+            overdens = kwargs.pop("overdens", 200.0)
+            nrad = kwargs.pop("nrad", 20.0)
+            plot = kwargs.pop("plot", False)
 
             cluster.virial_radius(method=method,full=full,
                 H=H,Om=Om,overdens=overdens,nrad=nrad,projected=projected,
-- 
2.43.0


From 3e84630b6c46de0774264f3ae1d68806d1020aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 12/82] fix: read single-star snapshots and stop at the end of
 new_gyrfalcon files

---
 clustertools/io/gyrfalcon.py | 6 +++++-
 clustertools/io/snapshot.py  | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/gyrfalcon.py b/clustertools/io/gyrfalcon.py
index f69fde5..542c1ff 100644
--- a/clustertools/io/gyrfalcon.py
+++ b/clustertools/io/gyrfalcon.py
@@ -282,11 +282,15 @@ def _get_new_gyrfalcon(
         nskip=(skiprows+ntot)*cluster.nsnap+skiprows
 
     try:
-        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot)
+        data=np.loadtxt(filename,skiprows=nskip,max_rows=ntot,ndmin=2)
     except StopIteration:
         print("END OF FILE")
         return StarCluster(0.0,ctype="new_nemo",**kwargs)
 
+    if len(data) < ntot:
+        print("END OF FILE")
+        return StarCluster(0.0,ctype="new_nemo",**kwargs)
+
     m=data[:,0].astype(float)
     x=data[:,1].astype(float)
     y=data[:,2].astype(float)
diff --git a/clustertools/io/snapshot.py b/clustertools/io/snapshot.py
index 327ca98..9d32439 100644
--- a/clustertools/io/snapshot.py
+++ b/clustertools/io/snapshot.py
@@ -81,13 +81,14 @@ def _get_snapshot(
                 "%s%s%s" % (wdir, snapdir, filename),
                 delimiter=delimiter,
                 skiprows=skiprows,
+                ndmin=2,
             )
         elif os.path.isfile("%s%s" % (wdir, filename)):
             data = np.loadtxt(
-                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows
+                "%s%s" % (wdir, filename), delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         elif os.path.isfile(filename):
-            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows
+            data = np.loadtxt(filename, delimiter=delimiter, skiprows=skiprows, ndmin=2
             )
         else:
             print("NO FILE FOUND: %s, %s, %s" % (wdir, snapdir, filename))
@@ -110,6 +111,7 @@ def _get_snapshot(
             ),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     elif os.path.isfile(
         "%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)
@@ -119,6 +121,7 @@ def _get_snapshot(
             ("%s%s%s%s" % (wdir, snapbase, str(nsnap).zfill(nzfill), snapend)),
             delimiter=delimiter,
             skiprows=skiprows,
+            ndmin=2,
         )
     else:
         print(
-- 
2.43.0


From 4fc6d92a81a927c13fbaba8369061eb64695dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 13/82] fix: NBODY6 loader misaligned binary luminosities,
 failed at end of file with stellar evolution and forgot its directories

---
 clustertools/io/nbody6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index f88cfae..22639ec 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -59,6 +59,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
             origin="cluster",
             ctype="nbody6",
             sfile=out3,
+            **kwargs
         )
                 
         if nstot > 0:
@@ -81,7 +82,7 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
     if nstot > 0:
         cluster.add_stars(xs, ys, zs, vxs, vys, vzs, ms, i_ds)
 
-    if fort82 is not None and fort83 is not None:
+    if fort82 is not None and fort83 is not None and ntot>0:
         cluster.ssefile=fort83
         cluster.bsefile=fort82
         i_d,kw,ri,m1,zl1,r1,te,i_d1,i_d2,kw1,kw2,kwb,rib,ecc,pb,semi,m1b,m2b,zl1b,zl2b,r1b,r2b,te1,te2=_get_nbody6se(fort82,fort83,**kwargs)
@@ -295,7 +296,7 @@ def _get_nbody6se(fort82, fort83, **kwargs):
 
             #Add select parametes to full array
             kw=np.append(kw,kwb[-1])
-            lbtot=np.log10(10.0**np.asarray(zl1b)+10.0**np.asarray(zl2b))
+            lbtot=np.log10(10.0**zl1b[-1]+10.0**zl2b[-1])
             zl1=np.append(zl1,lbtot)
             r1=np.append(r1,np.maximum(r1b[-1],r2b[-1]))
 
-- 
2.43.0


From 4a11dd2a50539b296a9e2abca37d7a5f954ebe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 14/82] fix: NBODY6++ loader read potentials and luminosities
 as integers, dropped binary luminosities and snapdir

---
 clustertools/io/nbody6pp.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/clustertools/io/nbody6pp.py b/clustertools/io/nbody6pp.py
index abc251e..7c15dcb 100644
--- a/clustertools/io/nbody6pp.py
+++ b/clustertools/io/nbody6pp.py
@@ -91,6 +91,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=snap40,
             nsnap=nsnap,
             wdir=wdir,
+            snapdir=snapdir,
         )
 
         cluster.hdf5=True
@@ -102,7 +103,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             cluster.add_nbody6(
             alist[13], alist[12], alist[2], alist[4], alist[6], alist[7], alist[8], alist[3], alist[11],alist[10],alist[17], ntot, nb, ntot+alist[1])
         elif nbody6list is not None:
-            cluster.add_nbody6(nbody6list)
+            cluster.add_nbody6(*nbody6list)
 
         if binaries:
             cluster.add_stars(xc1,xc2,xc3,vc1,vc2,vc3,mbtot,i_d1,analyze=False)
@@ -172,6 +173,7 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
             sfile=conf3,
             nsnap=nsnap,
             wdir=wdir,
+            snapdir=snapdir,
         )
 
         if ntot > 0:
@@ -208,8 +210,8 @@ def _get_nbody6pp(conf3, bev82=None, sev83=None, snap40=None, ofile=None, advanc
 
             if nb>0:
                 kws[binargs]=np.maximum(kw1,kw2)
-                zl1s[binargs]=zl1b+zl2b
-                r1s[binargs]=r1b+r2b
+                zl1s[binargs]=np.log10(10.0**zl1b+10.0**zl2b)
+                r1s[binargs]=np.maximum(r1b,r2b)
                 args=arg[2*nb:]-nb-1
             else:
                 args=arg-1
@@ -303,7 +305,7 @@ def _get_nbody6pp_conf3(f,return_alist_only=False,**kwargs):
             vz=np.append(vz,struct.unpack('f',f.read(4))[0]) 
 
         for i in range(ntot):
-            phi=np.append(phi,struct.unpack('i',f.read(4))[0])            
+            phi=np.append(phi,struct.unpack('f',f.read(4))[0])
 
         for i in range(ntot):
             i_d=np.append(i_d,struct.unpack('i',f.read(4))[0])
@@ -361,7 +363,7 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
         m1b=data[:,12].astype(float)
         m2b=data[:,13].astype(float)
 
-        if len(data)>=14:
+        if data.shape[1]>=20:
             zl1b=data[:,14].astype(float)
             zl2b=data[:,15].astype(float)
             r1b=data[:,16].astype(float)
@@ -425,14 +427,14 @@ def _get_nbody6pp_ev(bev, sev, **kwargs):
     header=sev.readline().split()
     ntot,tphys=int(header[0]),float(header[1])
 
-    data=np.loadtxt(sev.name,skiprows=1)
+    data=np.loadtxt(sev.name,skiprows=1,ndmin=2)
 
     arg=data[:,1].astype(int)
     i_d=data[:,2].astype(int)
     kw=data[:,3].astype(int)
     ri=data[:,4].astype(float)
     m1=data[:,5].astype(float)
-    zl1=data[:,6].astype(int)
+    zl1=data[:,6].astype(float)
     r1=data[:,7].astype(float)
     te=data[:,8].astype(float)
 
-- 
2.43.0


From 9895aad62f8fa481367ec17b8d4fe935442e3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 15/82] fix: restart directories in advance_cluster and orbit
 files with gyrfalcon snapshots

---
 clustertools/io/load.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 34cbc6a..3587e24 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -229,13 +229,13 @@ def load_cluster(
         filename=_get_filename(filename,**kwargs)
         filein = open(filename, "r")
 
-        cluster = _get_gyrfalcon(filein, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_gyrfalcon(filein, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype == "new_gyrfalcon" or ctype=='new_nemo':
         # Read in snapshot from gyrfalcon.
         filename=_get_filename(filename,**kwargs)
 
-        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, advance=False, **kwargs)
+        cluster = _get_new_gyrfalcon(filename, units=units, origin=origin, ofile=ofile, advance=False, **kwargs)
 
     elif ctype=='amuse':
         filename=_get_filename(filename,**kwargs)
@@ -402,6 +402,12 @@ def advance_cluster(
 
     if kwargs.get("ofilename", None) is None:
         ofilename=cluster.ofilename
+    else:
+        ofilename=kwargs["ofilename"]
+
+    # Needed if the simulation is continued in a restart directory
+    units_init,origin_init=cluster.units_init,cluster.origin_init
+    restart_kwargs={}
 
     wdir = advance_kwargs.get("wdir", "")
     if wdir != "":
@@ -431,6 +437,7 @@ def advance_cluster(
         
 
         hdf5=advance_kwargs.pop("hdf5")
+        restart_kwargs={"hdf5":hdf5,"dtout":kwargs.get('dtout',kwargs.get('deltat',1))}
 
         if hdf5:
             ngroups=advance_kwargs.get("ngroups")
@@ -560,6 +567,7 @@ def advance_cluster(
     elif cluster.ctype == "snapshot":
         col_names = kwargs.pop("col_names", ["m", "x", "y", "z", "vx", "vy", "vz"])
         col_nums = kwargs.pop("col_nums", [0, 1, 2, 3, 4, 5, 6])
+        restart_kwargs={"col_names":col_names,"col_nums":col_nums}
 
         cluster = _get_snapshot(
             filename=filename,
@@ -586,17 +594,14 @@ def advance_cluster(
 
     # Check for restart
     if cluster.ntot == 0.0:
-        try:
-            wdir = cluster.wdir + "cont/"
-        except:
-            wdir = "./cont/"
+        wdir = wdir + "cont/"
 
 
         if os.path.exists(wdir):
 
             if ofile is not None:
                 ofilename = ofile.name.split('/')[-1]
-                kwargs.pop('ofilename')
+                kwargs.pop('ofilename',None)
                 ofile=None
             else:
                 ofilename=kwargs.pop('ofilename',ofilename)
@@ -606,12 +611,12 @@ def advance_cluster(
             if nsnap is None:
 
                 cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster.ctype,units=units_init,origin=origin_init,orbit=orbit,filename=filename,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **restart_kwargs, **kwargs,
                 )
 
             else:
                    cluster = load_cluster(
-                    ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **kwargs,
+                    ctype=cluster.ctype,units=units_init,origin=origin_init,orbit=orbit,filename=filename,nsnap=nsnap,load_function=load_function,wdir=wdir,ofilename=ofilename,**advance_kwargs, **restart_kwargs, **kwargs,
                 )         
 
     if cluster.ntot != 0.0:
-- 
2.43.0


From c4c71a057493a10914c1d31078f9685d67a79324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 16/82] fix: NBODY6 reader added OUT33 stars to a snapshot
 whose OUT3 record is missing

---
 clustertools/io/nbody6.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clustertools/io/nbody6.py b/clustertools/io/nbody6.py
index 22639ec..a72c28c 100644
--- a/clustertools/io/nbody6.py
+++ b/clustertools/io/nbody6.py
@@ -74,7 +74,8 @@ def _get_nbody6(out3, out33=None, fort82=None, fort83=None, ofile=None, advance=
 
         nbtot,alist,xb,yb,zb,vxb,vyb,vzb,mb,i_db=_get_nbody6_out33(out33,**kwargs)
                 
-        if nbtot > 0: 
+        #Without its OUT3 record (end of file) the snapshot is incomplete
+        if nbtot > 0 and nstot > 0: 
             cluster.add_stars(xb, yb, zb, vxb, vyb, vzb, mb, i_db)
             cluster.add_orbit(alist[0],alist[1],alist[2],alist[3],alist[4],alist[5])
             ntot+=nbtot
-- 
2.43.0


From ab95886afad6c7b4b463f22d792fcc8e50d2e940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 17/82] fix: unit conversions changed the arrays passed to them

---
 clustertools/util/units.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index b4a7d48..cf05844 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -43,6 +43,9 @@ def _convert_length(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave the array passed in as it was
+        x=x*1.0
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=cluster.rbar
@@ -136,6 +139,9 @@ def _convert_velocity(x,units,cluster):
     """
     if units!=cluster.units:
 
+        #Leave the array passed in as it was
+        x=x*1.0
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x*=cluster.vbar
@@ -224,6 +230,9 @@ def _convert_square_velocity(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave the array passed in as it was
+        x=x*1.0
+
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
@@ -319,6 +328,9 @@ def _convert_time(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave the array passed in as it was
+        x=x*1.0
+
 
         to=conversion.time_in_Gyr(ro=cluster._ro,vo=cluster._vo)
 
@@ -407,6 +419,9 @@ def _convert_mass(x,units,cluster):
 
     if units!=cluster.units:
 
+        #Leave the array passed in as it was
+        x=x*1.0
+
 
         if units=='nbody':
             x*=cluster.zmbar
-- 
2.43.0


From 756e278bc2d7982ce4b47a370524e418132f7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 18/82] fix: velocity conversions between km/s and pc/Myr or
 kpc/Gyr lost or misplaced their factor

---
 clustertools/util/units.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index cf05844..08ee2bb 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -151,7 +151,7 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster.vbar
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=1.022712165045695
             elif cluster.units=='galpy':
                 x*=cluster.vbar/cluster._vo
@@ -173,9 +173,11 @@ def _convert_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | u.kms
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
-            if units=='kpcgyr': 
+            if units=='kpcgyr' or units=='WDunits':
                 x/=1.022712165045695
             if cluster.units=='nbody':
                 x/=cluster.vbar
@@ -183,6 +185,8 @@ def _convert_velocity(x,units,cluster):
                 x= x | u.kms
             elif cluster.units=='galpy':
                 x/=cluster._vo
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=1.022712165045695
             elif cluster.units=='radec':
                 print('NO DIRECT CONVERSION AVAILABLE')
 
@@ -195,6 +199,8 @@ def _convert_velocity(x,units,cluster):
                     x*=1.022712165045695
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=cluster._vo
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=1.022712165045695
             elif cluster.units=='nbody':
                 x*=(cluster._vo/cluster.vbar)
             elif cluster.units=='radec':
@@ -243,7 +249,7 @@ def _convert_square_velocity(x,units,cluster):
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster.vbar**2.)
-                if cluster.units=='kpcgyr':
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
                     x*=(1.022712165045695**2.0)
             elif cluster.units=='galpy':
                 x*=((cluster.vbar/cluster._vo)**2.)
@@ -267,10 +273,12 @@ def _convert_square_velocity(x,units,cluster):
                 print('NO DIRECT CONVERSION AVAILABLE')
             elif cluster.units=='amuse':
                 x=x | (u.kms*u.kms)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
 
         elif units=='kpckms' or units=='kpcgyr' or units=='WDunits':
 
-            if units=='kpcgyr':
+            if units=='kpcgyr' or units=='WDunits':
                 x/=(1.022712165045695**2.0)
 
             if cluster.units=='nbody':
@@ -279,6 +287,8 @@ def _convert_square_velocity(x,units,cluster):
                 x= x | (u.kms*u.kms)
             elif cluster.units=='galpy':
                 x/=(cluster._vo**2.)
+            elif cluster.units=='pcmyr' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                x*=(1.022712165045695**2.0)
             elif cluster.units=='radec':
                 print('NO DIRECT CONVERSION AVAILABLE')
 
@@ -287,12 +297,12 @@ def _convert_square_velocity(x,units,cluster):
                 x*=(cluster._vo**2.)
                 if cluster.units=='amuse':
                     x= x | (u.kms*u.kms)
-                elif units=='pcmyr':
-                    x/=(1.022712165045695**2.0)
+                elif cluster.units=='pcmyr':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x*=(cluster._vo**2.)
-                if units=='kpcgyr':
-                    x/=(1.022712165045695**2.0)
+                if cluster.units=='kpcgyr' or cluster.units=='WDunits':
+                    x*=(1.022712165045695**2.0)
             elif cluster.units=='nbody':
                 x*=((cluster._vo/cluster.vbar)**2.)
             elif cluster.units=='radec':
-- 
2.43.0


From 9c41c6c57fbb7d5e79f8dd35a8e0805be50cacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 19/82] fix: mass conversion to galpy units used an undefined
 module

---
 clustertools/util/units.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 08ee2bb..6648c07 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -438,12 +438,12 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
 
         elif units=='galpy':
-            x *= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+            x *= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
             if cluster.units=='amuse':
                 x= x | u.MSun
@@ -460,7 +460,7 @@ def _convert_mass(x,units,cluster):
             elif cluster.units=='amuse':
                 x= x | u.MSun
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
 
         else:
             if units=='amuse':
@@ -469,7 +469,7 @@ def _convert_mass(x,units,cluster):
             if cluster.units=='nbody':
                 x/=cluster.zmbar
             elif cluster.units=='galpy':
-                x /= coords.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+                x /= conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
             elif cluster.units=='WDunits':
                 x/=222288.4543021174
             elif cluster.units=='amuse':
-- 
2.43.0


From 3f4edf9eff403d6676338b3fdb0799fa13a5c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 20/82] fix: surface densities converted with the powers of
 volume densities

---
 clustertools/util/units.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index 6648c07..dd73dab 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -503,8 +503,10 @@ def _convert_density(x,units,cluster,projected=False):
 
     if units!=cluster.units:
 
+        #Leave the array passed in as it was
+        x=x*1.0
+
 
-        x=_convert_mass(x,units,cluster)
 
         if projected:
             power=2.0
@@ -512,6 +514,12 @@ def _convert_density(x,units,cluster,projected=False):
             power=3.0
 
 
+        if units=='amuse':
+            x=x.value_in(u.MSun/u.parsec**power)
+            units='pckms'
+
+        x=_convert_mass(x,units,cluster)
+
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(cluster.rbar**power)
@@ -547,7 +555,7 @@ def _convert_density(x,units,cluster,projected=False):
             elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                 x/=(1000.0**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='galpy':
                 x*=(cluster._ro**power)
             elif cluster.units=='radec':
@@ -556,15 +564,15 @@ def _convert_density(x,units,cluster,projected=False):
 
         elif units=='galpy':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
-                x/=((1000.0*cluster._ro)**3.0)
+                x/=((1000.0*cluster._ro)**power)
                 if cluster.units=='amuse':
-                    x/= 1 | (u.parsec*u.parsec*u.parsec)
+                    x/= (1 | u.parsec)**power
             elif cluster.units=='kpckms' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
                 x/=(cluster._ro**power)
             elif cluster.units=='nbody':
                 x/=((cluster._ro*1000.0/cluster.rbar)**power)
             elif cluster.units=='radec':
-                x/=(cluster._ro**3.0)
+                x/=(cluster._ro**power)
                 kpc_deg=np.degrees(np.arctan2(1.0,cluster.zgc))
                 x/=(kpc_deg**power)
 
@@ -579,7 +587,7 @@ def _convert_density(x,units,cluster,projected=False):
                 elif cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
                     x/=(1000.0**power)
                     if cluster.units=='amuse':
-                        x/= 1 | (u.parsec*u.parsec*u.parsec)
+                        x/= (1 | u.parsec)**power
                 elif cluster.units=='galpy':
                     x*=(cluster._ro**power)
 
-- 
2.43.0


From 1a539c242c40f78f8e8e2113148a9666c48b799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 21/82] fix: snapout failed with energies or sky coordinates
 when there are no stellar types

---
 clustertools/util/output.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 05b864d..7512d88 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -51,6 +51,9 @@ def snapout(cluster, filename, energies=False, radec=False):
     -------
     2018 - Written - Webb (UofT)
     """
+    #Only clusters with stellar evolution data have a column of stellar types
+    kwcol = [cluster.kw] if len(cluster.kw)==cluster.ntot else []
+
     if radec:
 
         ra, dec, d0, pmra, pmdec, vr0 = sky_coords(cluster)
@@ -68,7 +71,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        *kwcol,
                         cluster.kin,
                         cluster.pot,
                         cluster.etot,
@@ -94,7 +97,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        *kwcol,
                         ra,
                         dec,
                         d0,
@@ -119,7 +122,7 @@ def snapout(cluster, filename, energies=False, radec=False):
                         cluster.vy,
                         cluster.vz,
                         cluster.id,
-                        cluster.kw,
+                        *kwcol,
                         cluster.kin,
                         cluster.pot,
                         cluster.etot,
-- 
2.43.0


From 592de0e7f1ec871227b2935d68fe70a2f3f10f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 22/82] fix: gyrout converted velocities with 220 km/s instead
 of the solar velocity

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 7512d88..2fd7b86 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -318,7 +318,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
     2019 - Written - Webb (UofT)
 
     """
-    vcon = 220.0 / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
+    vcon = solar_vo / conversion.velocity_in_kpcGyr(vo=solar_vo, ro=solar_ro)
     mcon = 222288.4543021174
 
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
-- 
2.43.0


From 1b64a555a939a1a3e22fbc197ae6a4be84e0ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 23/82] fix: gyrout failed for softenings that are not Python
 floats

---
 clustertools/util/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/output.py b/clustertools/util/output.py
index 2fd7b86..24ec974 100644
--- a/clustertools/util/output.py
+++ b/clustertools/util/output.py
@@ -333,7 +333,7 @@ def gyrout(cluster, filename="init.nemo.dat",eps=None,epsunits=None,ro=solar_ro,
 
         eps=_convert_length(eps,epsunits,cluster)
 
-        if isinstance(eps,float):
+        if np.ndim(eps)==0:
             eps=np.ones(cluster.ntot)*eps
 
         np.savetxt(
-- 
2.43.0


From 75819c8884a6f1ce0614e169e40c680c6bfb5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 24/82] fix: reset_nbody_scale in N-body units rescaled the
 wrong attributes

---
 clustertools/cluster/cluster.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index e367bbe..d456dd9 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2046,7 +2046,32 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.zmbar,self.rbar,self.vbar,self.tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
+        zmbar,rbar,vbar,tbar=reset_nbody_scale(self, mass=mass, radii=radii, rvirial=rvirial,projected=projected,**kwargs)
+
+        #Values in N-body units have to be moved from the old scale to the new one
+        units0=self.units
+        if units0=='nbody':
+            self.to_pckms(analyze=False)
+
+        rbar_au0,tbar_days0,zmbar0=self.rbar_au,self.tbar_days,self.zmbar
+
+        self.zmbar,self.rbar,self.vbar,self.tbar=zmbar,rbar,vbar,tbar
+
+        au_to_cm = 1.49597870700e13
+        pc_to_cm = 1296000.0/(2.0*np.pi)*au_to_cm
+        rsun_to_cm = 6.957e10
+        self.tbar_days = 365.25*(self.rbar*1296000.0/(2.0*np.pi))**1.5/np.sqrt(self.zmbar)
+        self.rbar_su = pc_to_cm/rsun_to_cm*self.rbar
+        self.rbar_au = pc_to_cm/au_to_cm*self.rbar
+
+        if self.bunits=='nbody' and self.nb>0 and len(self.semi)>0:
+            self.semi=self.semi*rbar_au0/self.rbar_au
+            self.pb=self.pb*tbar_days0/self.tbar_days
+            self.m1=self.m1*zmbar0/self.zmbar
+            self.m2=self.m2*zmbar0/self.zmbar
+
+        if units0=='nbody':
+            self.to_nbody()
 
     def add_rotation(self, qrot):
         """Add a degree of rotation to an already generated StarCluster
-- 
2.43.0


From 70697c9ebda4e7058fa732ef96a7e9e5d16e0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 25/82] fix: add_rotation outside the cluster's frame mixed up
 origins

---
 clustertools/cluster/cluster.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d456dd9..cd732c1 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2092,9 +2092,18 @@ class StarCluster(object):
         -------
         2019 - Written - Webb (UofT)
         """
+        units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
+
+        #Positions and velocities are returned with respect to the centre the stars rotate about
+        if origin0 != "cluster" and origin0 != "centre":
+            self.to_centre(sortstars=False)
+
         self.x,self.y,self.z,self.vx,self.vy,self.vz=add_rotation(self, qrot)
         self.qrot=qrot
 
+        self.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        self.analyze(sortstars=False)
+
     def virialize(self, qvir=0.5,specific=True, full=True, projected=None, softening=0.0):
         """ Adjust stellar velocities so cluster is in virial equilibrium
 
-- 
2.43.0


From a21f2cf20135523171e873cfb65f7aebd30ef88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 26/82] fix: virialize used outdated energies and ignored its
 options

---
 clustertools/cluster/cluster.py    | 3 ++-
 clustertools/cluster/operations.py | 9 +++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index cd732c1..10d4a72 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2134,7 +2134,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.qv=virialize(self, qvir=qvir, specific=True, full=True, projected=projected,softening=softening)
+        self.qv=virialize(self, qvir=qvir, specific=specific, full=full, projected=projected,softening=softening)
 
         units0,origin0, rorder0, rorder_origin0 = self.units,self.origin, self.rorder, self.rorder_origin
 
@@ -2146,6 +2146,7 @@ class StarCluster(object):
         self.vz *= self.qv
 
         self.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        self.analyze(sortstars=False)
 
     # Directly call from functions.py (see functions.py files for documenation):
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 4bb2d08..dcf7684 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1490,12 +1490,9 @@ def virialize(cluster, qvir=0.5, specific=True, full=full_default, projected=Fal
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
 
-    try:
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
-    except:
-        print("NEED TO CALCULATE ENERGIES FIRST")
-        cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
-        qv = np.sqrt(np.abs(qvir / cluster.qvir))
+    #Energies may have been calculated for a different set of positions and velocities
+    cluster.energies(specific=specific, full=full, projected=projected,softening=softening)
+    qv = np.sqrt(np.abs(qvir / cluster.qvir))
 
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From f3b846df7fd85974012ae4d5ef5dea0b44b8756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 27/82] fix: add_orbit mixed up orbit units and cluster units

---
 clustertools/cluster/cluster.py | 42 ++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 10d4a72..345cfeb 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -882,6 +882,11 @@ class StarCluster(object):
             tphys=0.
             otime=False
 
+        # Leave any arrays passed in as they were
+        xgc, ygc, zgc = xgc * 1.0, ygc * 1.0, zgc * 1.0
+        vxgc, vygc, vzgc = vxgc * 1.0, vygc * 1.0, vzgc * 1.0
+        tphys = tphys * 1.0
+
         if ounits != None and ounits != self.units:
             # First convert to kpckms
             if ounits != "kpckms":
@@ -892,7 +897,7 @@ class StarCluster(object):
                     vxgc *= self.vbar
                     vygc *= self.vbar
                     vzgc *= self.vbar
-                    tphys *= self.tbar
+                    tphys *= self.tbar / 1000.0
                 elif ounits == "galpy":
                     xgc *= ro
                     ygc *= ro
@@ -914,12 +919,21 @@ class StarCluster(object):
                     vygc/=1.022712165045695
                     vzgc/=1.022712165045695
                     tphys /= 1000.0
-                elif ounits == 'kpcgyr':
+                elif ounits == 'kpcgyr' or ounits == 'WDunits':
                     vxgc/=1.022712165045695
                     vygc/=1.022712165045695
                     vzgc/=1.022712165045695
 
 
+                elif ounits == 'amuse':
+                    xgc=xgc.value_in(u.kpc)
+                    ygc=ygc.value_in(u.kpc)
+                    zgc=zgc.value_in(u.kpc)
+                    vxgc=vxgc.value_in(u.kms)
+                    vygc=vygc.value_in(u.kms)
+                    vzgc=vzgc.value_in(u.kms)
+                    if otime:
+                        tphys=tphys.value_in(u.Gyr)
                 elif ounits == 'radec':
                     o=Orbit([xgc,ygc,zgc,vxgc,vygc,vzgc],radec=True,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
                     xgc=o.x()
@@ -931,11 +945,33 @@ class StarCluster(object):
 
                 ounits = "kpckms"
 
-            if self.units == "pckms":
+            if self.units == "pckms" or self.units == "pcmyr":
                 xgc *= 1000.0
                 ygc *= 1000.0
                 zgc *= 1000.0
                 tphys *= 1000.0
+                if self.units == "pcmyr":
+                    vxgc *= 1.022712165045695
+                    vygc *= 1.022712165045695
+                    vzgc *= 1.022712165045695
+
+            elif self.units == "kpcgyr" or self.units == "WDunits":
+                vxgc *= 1.022712165045695
+                vygc *= 1.022712165045695
+                vzgc *= 1.022712165045695
+
+            elif self.units == "amuse":
+                xgc, ygc, zgc = xgc | u.kpc, ygc | u.kpc, zgc | u.kpc
+                vxgc, vygc, vzgc = vxgc | u.kms, vygc | u.kms, vzgc | u.kms
+                tphys = tphys | u.Gyr
+
+            elif self.units == "radec":
+                R, phi, zcyl = coords.rect_to_cyl(xgc, ygc, zgc)
+                vR, vT, vzcyl = coords.rect_to_cyl_vec(vxgc, vygc, vzgc, xgc, ygc, zgc)
+                o=Orbit([R/ro,vR/vo,vT/vo,zcyl/ro,vzcyl/vo,phi],ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+                xgc,ygc,zgc=o.ra(),o.dec(),o.dist()
+                vxgc,vygc,vzgc=o.pmra(),o.pmdec(),o.vlos()
+
             elif self.units == "nbody":
                 xgc *= 1000.0 / self.rbar
                 ygc *= 1000.0 / self.rbar
-- 
2.43.0


From a8826dd198cf070df85fe7d9cb3a716b894b641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 28/82] fix: interpolating with the old function names raised,
 and interpolated stars kept old radii

---
 clustertools/analysis/orbits.py | 6 +++---
 clustertools/cluster/cluster.py | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index cc5aa9e..bd03cca 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -542,7 +542,7 @@ def orbit_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 def orbits_interpolate(
     cluster,
@@ -590,12 +590,12 @@ def orbits_interpolate(
     -------
     2021 - Written - Webb (UofT)
     """
-    return interpolate_orbits(cluster, cluster_pot=cluster_pot, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion,plot=False)
+    return interpolate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion)
 
 
 def orbital_path(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     nt=1000,
     pot=None,
     from_centre=False,
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 345cfeb..60a76c8 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3529,7 +3529,7 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbit(self,pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbit(pot=pot,tfinal=tfinal,nt=nt,from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     def interpolate_orbits(self,pot=None,tfinal=None,nt=1000,ro=None,vo=None,zo=None,solarmotion=None):
@@ -3598,6 +3598,8 @@ class StarCluster(object):
                 self.ra_gc,self.dec_gc,self.dist_gc=xgc,ygc,zgc
                 self.pmra_gc,self.pmdec_gc,self.vlos_gc=vxgc,vygc,vzgc
 
+        self.analyze(sortstars=False)
+
         return self.x,self.y,self.z,self.vx,self.vy,self.vz
 
 
@@ -3638,9 +3640,9 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
-        self.interpolate_orbits(self,pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+        return self.interpolate_orbits(pot=pot,tfinal=tfinal,nt=nt,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
-    def orbital_path(self,tfinal=0.1,nt=1000,pot=None,from_centre=False,
+    def orbital_path(self,tfinal=None,nt=1000,pot=None,from_centre=False,
         skypath=False,initialize=False,ro=None,vo=None,zo=None,solarmotion=None, plot=False,**kwargs):
         """Calculate the cluster's orbital path
 
-- 
2.43.0


From f6f032e4a1359304b5d7ec81dca9ed4bbaf67b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 29/82] fix: orbit integration over no time never ended

---
 clustertools/analysis/orbits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index bd03cca..04afe8b 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -247,7 +247,8 @@ def _integrate_orbit(
         tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     ts = np.linspace(0, tfinal, nt)
-    o.integrate(ts, pot)
+    #There is nothing to integrate when the final time is now
+    if tfinal != 0: o.integrate(ts, pot)
 
     if plot:
         o.plot()
@@ -313,7 +314,8 @@ def _integrate_orbits(
     ts = np.linspace(0, tfinal, nt)
 
     #integrate orbits of stars in combined potential of GC and galaxy
-    os.integrate(ts, pot)
+    #There is nothing to integrate when the final time is now
+    if tfinal != 0: os.integrate(ts, pot)
 
     if plot:
         os.plot()
-- 
2.43.0


From 75e1f4b15007827ded733b6210904d408928ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 30/82] fix: orbital_path_match mixed units, and failed on the
 sky and with do_full

---
 clustertools/analysis/orbits.py | 89 ++++++++++-----------------------
 clustertools/cluster/cluster.py |  2 +-
 2 files changed, 27 insertions(+), 64 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 04afe8b..357585f 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -766,7 +766,7 @@ def orbital_path(
 
 def orbital_path_match(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     nt=1000,
     pot=None,
     path=None,
@@ -843,12 +843,16 @@ def orbital_path_match(
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
     if skypath:
-        cluster.to_radec()
+        cluster.to_sky()
         projected=True
     else:
         cluster.to_galaxy(sortstars=False)
         cluster.to_kpckms()
 
+    #The final time was given in the cluster's own units
+    if tfinal is not None and (units0!='amuse' or hasattr(tfinal,'value_in')):
+        tfinal=_convert_time(tfinal,units0,cluster)
+
     if path is None:
         ts, x, y, z, vx, vy, vz = orbital_path(
             cluster,
@@ -891,18 +895,13 @@ def orbital_path_match(
     dyo = y[1:] - y[0:-1]
     dzo = z[1:] - z[0:-1]
 
-    dprogx = np.cumsum(np.fabs(dxo))
-    dprogy = np.cumsum(np.fabs(dyo))
-    dprogz = np.cumsum(np.fabs(dzo))
-
-    dprogx = np.insert(dprogx, 0, 0.0)
-    dprogy = np.insert(dprogy, 0, 0.0)
-    dprogz = np.insert(dprogz, 0, 0.0)
-
+    # Length of the path up to each point along it
     if projected:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0))
     else:
-        dprogr = np.sqrt(dprogx ** 2.0 + dprogy ** 2.0 + dprogz ** 2.0)
+        dprogr = np.cumsum(np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0))
+
+    dprogr = np.insert(dprogr, 0, 0.0)
 
     dprog = dprogr[indx] - dprogr[pindx]
 
@@ -912,56 +911,18 @@ def orbital_path_match(
         dyo = np.append(dyo, dyo[-1])
         dzo = np.append(dzo, dzo[-1])
 
-        if do_full:
-            # Typically it is too expensive to calculate dpath all at once, but will allow option via do_full
-
-            if projected:
-                ovec = np.column_stack([dxo, dyo])
-                mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
-            else:
-                ovec = np.column_stack([dxo, dyo, dzo])
-                mag_ovec = np.sqrt(dxo ** 2.0 + dyo ** 2.0 + dzo ** 2.0)
-                svec = np.column_stack([dx[:, indx], dy[:, indx], dz[:, indx]])
-                mag_svec = dr[:, indx]
-                theta = np.arccos(np.dot(ovec[indx], svec) / (mag_ovec[indx] * mag_svec))
-                dpath = mag_svec * np.sin(theta)
+        # Separation perpendicular to the direction of the path at the closest point
+        if projected:
+            ovec = np.column_stack([dxo, dyo])[indx]
+            svec = [dx, dy]
         else:
-            # Need to optimize this via numba
-            dpath = np.array([])
-            if projected:
-                for i in range(0, cluster.ntot):
-                        ovec = [dxo[indx[i]], dyo[indx[i]]]
-                        mag_ovec = np.sqrt(
-                            dxo[indx[i]] ** 2.0 + dyo[indx[i]] ** 2.0)
-
-                        svec = [dx[i, indx[i]], dy[i, indx[i]]]
-                        mag_svec = dr[i, indx[i]]
-
-                        theta = np.arccos(
-                            (ovec[0] * svec[0] + ovec[1] * svec[1])
-                            / (mag_ovec * mag_svec)
-                        )
-                        dpath = np.append(dpath, mag_svec * np.sin(theta))
-
-            else:
-                for i in range(0, cluster.ntot):
-                    ovec = [dxo[indx[i]], dyo[indx[i]], dzo[indx[i]]]
-                    mag_ovec = np.sqrt(
-                        dxo[indx[i]] ** 2.0 + dyo[indx[i]] ** 2.0 + dzo[indx[i]] ** 2.0
-                    )
-
-                    svec = [dx[i, indx[i]], dy[i, indx[i]], dz[i, indx[i]]]
-                    mag_svec = dr[i, indx[i]]
-
-                    theta = np.arccos(
-                        (ovec[0] * svec[0] + ovec[1] * svec[1] + ovec[2] * svec[2])
-                        / (mag_ovec * mag_svec)
-                    )
-                    dpath = np.append(dpath, mag_svec * np.sin(theta))
+            ovec = np.column_stack([dxo, dyo, dzo])[indx]
+            svec = [dx, dy, dz]
+
+        ovec = ovec / np.sqrt(np.sum(ovec ** 2.0, axis=1))[:, None]
+        svec = np.column_stack([ds[np.arange(cluster.ntot), indx] for ds in svec])
+        svec = svec - np.sum(ovec * svec, axis=1)[:, None] * ovec
+        dpath = np.sqrt(np.sum(svec ** 2.0, axis=1))
 
     # Assign negative to stars with position vectors in opposite direction as local angular momentum vector
     if not projected:
@@ -1004,7 +965,9 @@ def orbital_path_match(
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
     tstar=_convert_time(tstar,'kpckms',cluster)
-    dprog=_convert_length(dprog,'kpckms',cluster)
-    dpath=_convert_length(dpath,'kpckms',cluster)
+    #Distances along a path on the sky are in degrees
+    if not skypath or cluster.units=='amuse':
+        dprog=_convert_length(dprog,'kpckms',cluster)
+        dpath=_convert_length(dpath,'kpckms',cluster)
 
     return np.array(tstar), np.array(dprog), np.array(dpath)
\ No newline at end of file
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 60a76c8..d8b9f75 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3695,7 +3695,7 @@ class StarCluster(object):
 
         return  self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def orbital_path_match(self,tfinal=0.1,nt=1000,pot=None,path=None,from_centre=False,
+    def orbital_path_match(self,tfinal=None,nt=1000,pot=None,path=None,from_centre=False,
         skypath=False,to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,projected=False,**kwargs):
 
         """Match stars to a position along the orbital path of the cluster
-- 
2.43.0


From b8d4eaf0cc6c0c74c1198af16c9ceb81378c4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 31/82] fix: paths supplied to orbital_path_match were read in
 the wrong units

---
 clustertools/analysis/orbits.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 357585f..5a8e027 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -869,6 +869,12 @@ def orbital_path_match(
         )
     else:
         ts, x, y, z, vx, vy, vz = path
+        #The path was also given in the cluster's own units
+        if units0!='amuse' or hasattr(ts,'value_in'):
+            ts=_convert_time(ts,units0,cluster)
+            if not skypath:
+                x,y,z=[_convert_length(val,units0,cluster) for val in (x,y,z)]
+                vx,vy,vz=[_convert_velocity(val,units0,cluster) for val in (vx,vy,vz)]
 
     pindx = np.argmin(np.fabs(ts))
 
-- 
2.43.0


From 1a52752dcadb536636739968bd4cf1a39b30b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 32/82] fix: tail frame of AMUSE clusters failed and tail radii
 were squared sums

---
 clustertools/cluster/cluster.py | 6 +++---
 clustertools/tidaltail/tails.py | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index d8b9f75..ff16ea3 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3775,10 +3775,10 @@ class StarCluster(object):
 
         """
         self.x_tail,self.y_tail,self.z_tail,self.vx_tail,self.vy_tail,self.vz_tail=to_tail(self)
-        self.r_tail = np.sqrt(self.x_tail ** 2.0 + self.y_tail ** 2.0 + self.z_tail ** 2.0)
-        self.v_tail = np.sqrt(self.vx_tail ** 2.0 + self.vy_tail ** 2.0 + self.vz_tail ** 2.0)
+        self.r_tail = (self.x_tail ** 2.0 + self.y_tail ** 2.0 + self.z_tail ** 2.0) ** 0.5
+        self.v_tail = (self.vx_tail ** 2.0 + self.vy_tail ** 2.0 + self.vz_tail ** 2.0) ** 0.5
 
-    def tail_path(self,dt=0.1,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
+    def tail_path(self,tfinal=None,no=1000,nt=100,ntail=100,pot=None,dmax=None,bintype='fix',from_centre=False,skypath=False,
         to_path=False,
         do_full=False,
         ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs):
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 93604a7..7d5d5f4 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -56,7 +56,10 @@ def to_tail(cluster):
         cluster.to_centre(sortstars=False)
 
 
-    v_vec = np.array([cluster.vxgc, cluster.vygc, cluster.vzgc])
+    v_vec = [cluster.vxgc, cluster.vygc, cluster.vzgc]
+    if cluster.units == 'amuse':
+        v_vec = [v.value_in(cluster.vxgc.unit) for v in v_vec]
+    v_vec = np.array(v_vec)
     new_v_vec = np.array([1.0, 0.0, 0.0])
 
     rot = _rotate_to_arbitrary_vector(
-- 
2.43.0


From 8feea3539a633ea209508ea6b707f11367498597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 33/82] fix: tail_path ignored the units and name of the final
 time

---
 clustertools/cluster/cluster.py | 14 +++++++-------
 clustertools/tidaltail/tails.py | 13 +++++++++++--
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ff16ea3..2e5d4eb 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -3789,8 +3789,8 @@ class StarCluster(object):
             ----------
             cluster : class
                 StarCluster
-            dt : float
-                timestep that StarCluster is to be moved to
+            tfinal : float
+                final time (in cluster.units) to integrate orbit to (default: 0.1 Gyr)
             no : int
                 number of timesteps for orbit integration (default:1000)
             nt : int
@@ -3840,11 +3840,11 @@ class StarCluster(object):
             2019 - Implemented numpy array preallocation to minimize runtime - Nathaniel Starkman (UofT)
             """
 
-        self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath=tail_path(self,dt=dt,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,bintype=bintype,from_centre=from_centre,skypath=skypath,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
+        self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath=tail_path(self,tfinal=tfinal,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,bintype=bintype,from_centre=from_centre,skypath=skypath,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
 
         return self.tpath,self.xpath,self.ypath,self.zpath,self.vxpath,self.vypath,self.vzpath
 
-    def tail_path_match(self,dt=0.1,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
+    def tail_path_match(self,tfinal=None,no=1000,nt=100,ntail=100, pot=None,dmax=None,from_centre=False,
         to_path=False,do_full=False,ro=None,vo=None,zo=None,solarmotion=None,plot=False,**kwargs,):
 
         """Match stars to a position along the tail path of the cluster
@@ -3853,8 +3853,8 @@ class StarCluster(object):
         ----------
         cluster : class
             StarCluster
-        dt : float
-            timestep that StarCluster is to be moved to
+        tfinal : float
+            final time (in cluster.units) to integrate orbit to (default: 0.1 Gyr)
         no : int
             number of timesteps for orbit integration (default:1000)
         nt : int
@@ -3901,7 +3901,7 @@ class StarCluster(object):
         2018 - Written - Webb (UofT)
         """
 
-        self.tstar,self.dprog,self.dpath=tail_path_match(self,dt=dt,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,
+        self.tstar,self.dprog,self.dpath=tail_path_match(self,tfinal=tfinal,no=no,nt=nt,ntail=ntail,pot=pot,dmax=dmax,
         from_centre=from_centre,to_path=to_path,do_full=do_full,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion,plot=plot,**kwargs)
 
         return self.tstar,self.dprog,self.dpath
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 7d5d5f4..ce3cff9 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -92,7 +92,7 @@ def to_tail(cluster):
     return x_tail,y_tail,z_tail,vx_tail,vy_tail,vz_tail
 
 def tail_path(
-    cluster, tfinal=0.1, no=1000, nt=100, ntail=100, pot=None, dmax=None, bintype = 'fix', from_centre=False, skypath=False, 
+    cluster, tfinal=None, no=1000, nt=100, ntail=100, pot=None, dmax=None, bintype = 'fix', from_centre=False, skypath=False, 
     to_path=False,
     do_full=False,
     ro=None,
@@ -171,6 +171,15 @@ def tail_path(
     if dmax is not None:
         dmax=_convert_length(dmax,units0,cluster)
 
+    #The final time was given in the cluster's own units
+    if tfinal is not None and (units0!='amuse' or hasattr(tfinal,'value_in')):
+        tfinal=_convert_time(tfinal,units0,cluster)
+
+    if ro is None: ro=cluster._ro
+    if vo is None: vo=cluster._vo
+    if zo is None: zo=cluster._zo
+    if solarmotion is None: solarmotion=cluster._solarmotion
+
     top, xop, yop, zop, vxop, vyop, vzop = orbital_path(
         cluster,
         tfinal=tfinal,
@@ -265,7 +274,7 @@ def tail_path(
 
 def tail_path_match(
     cluster,
-    tfinal=0.1,
+    tfinal=None,
     no=1000,
     nt=100,
     ntail=100,
-- 
2.43.0


From 8fb95e6a568d4e6c2b9bdae029f18b2eff7dafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 34/82] fix: overlapping tail bins lost the stars they share

---
 clustertools/tidaltail/tails.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index ce3cff9..2e43621 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -218,16 +218,18 @@ def tail_path(
     else:
         dindx = (np.fabs(dpath) <= dmax)
 
-    bin_idx = bin_index(tstar, t_lower, t_upper)
-
-    nbin = len(t_mid)
-    counts = np.bincount(bin_idx[dindx], minlength=nbin).astype(float)
-    sum_x = np.bincount(bin_idx[dindx], weights=cluster.x[dindx], minlength=nbin)
-    sum_y = np.bincount(bin_idx[dindx], weights=cluster.y[dindx], minlength=nbin)
-    sum_z = np.bincount(bin_idx[dindx], weights=cluster.z[dindx], minlength=nbin)
-    sum_vx = np.bincount(bin_idx[dindx], weights=cluster.vx[dindx], minlength=nbin)
-    sum_vy = np.bincount(bin_idx[dindx], weights=cluster.vy[dindx], minlength=nbin)
-    sum_vz = np.bincount(bin_idx[dindx], weights=cluster.vz[dindx], minlength=nbin)
+    #Stars are averaged over every bin that contains them, as roaming bins overlap
+    member = (tstar >= t_lower[:, None]) * (tstar < t_upper[:, None])
+    member[-1] = (tstar >= t_lower[-1]) * (tstar <= t_upper[-1])
+    member = (member * dindx).astype(float)
+
+    counts = np.sum(member, axis=1)
+    sum_x = np.dot(member, cluster.x)
+    sum_y = np.dot(member, cluster.y)
+    sum_z = np.dot(member, cluster.z)
+    sum_vx = np.dot(member, cluster.vx)
+    sum_vy = np.dot(member, cluster.vy)
+    sum_vz = np.dot(member, cluster.vz)
 
     keep = counts > 0
     ttail = t_mid[keep]
-- 
2.43.0


From c2344c3fdb9cd75d6df9d9c6280a89407b3c7ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 35/82] fix: tail paths on the sky ignored the cluster's solar
 parameters

---
 clustertools/tidaltail/tails.py  | 2 +-
 clustertools/util/coordinates.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index 2e43621..eaff0e7 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -242,7 +242,7 @@ def tail_path(
 
 
     if skypath:
-        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail)
+        ratail,dectail,disttail,pmratail,pmdectail,vlostail=cart_to_sky(xtail, ytail, ztail, vxtail, vytail, vztail,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
 
     if plot:
diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index ea3cc39..0c6f213 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -249,7 +249,7 @@ def sky_coords(cluster,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar
 
     return ra, dec, d0, pmra, pmdec, vr0
 
-def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion):
+def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion,zo=solar_zo):
     """Convert cartesian coordinates to sky coordinates
 
     Parameters
@@ -272,14 +272,14 @@ def cart_to_sky(x,y,z,vx,vy,vz,ro=solar_ro,vo=solar_vo,solarmotion=solar_motion)
 
     if isinstance(R,float):
         o = Orbit(
-            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, solarmotion=solarmotion
+            [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
     else:
 
         vxvv=np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi])
 
         o = Orbit(
-            vxvv, ro=ro, vo=vo, solarmotion=solarmotion
+            vxvv, ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
         )
 
     return o.ra(),o.dec(),o.dist(),o.pmra(),o.pmdec(),o.vlos()
-- 
2.43.0


From 60167336d94be419f25b7e74787e57ae512c9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 36/82] fix: spherical angle of a point at the origin was
 undefined

---
 clustertools/util/coordinates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/coordinates.py b/clustertools/util/coordinates.py
index 0c6f213..9ff3918 100644
--- a/clustertools/util/coordinates.py
+++ b/clustertools/util/coordinates.py
@@ -83,7 +83,7 @@ def cart_to_sphere(x,y,z,vx,vy,vz):
 
     r=np.sqrt(x**2.+y**2.+z**2.)
     phi=np.arctan2(y,x)
-    theta=np.arccos(z/r)
+    theta=np.arctan2(np.sqrt(x**2.+y**2.),z)
     
     rhatx=np.cos(phi)*np.sin(theta)
     rhaty=np.sin(phi)*np.sin(theta)
-- 
2.43.0


From 197921c860ef9f59a34ebf7243daa9db5d47ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 37/82] fix: binning lost the extreme values to rounding

---
 clustertools/util/recipes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 7cffe5c..e7288c2 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -127,6 +127,8 @@ def binmaker(x, nbin=10, nsum=False, steptype="linear"):
         steps = np.linspace(np.amin(x), np.amax(x), nbin + 1)
     else:
         steps = np.logspace(np.log10(np.amin(x)), np.log10(np.amax(x)), nbin + 1)
+        #Rounding must not leave the smallest and largest values outside of the bins
+        steps[0], steps[-1] = np.amin(x), np.amax(x)
 
     x_lower = steps[:-1]
     x_upper = steps[1:]
@@ -270,6 +272,10 @@ def roaming_binmaker(x, nbin=10, ntot=20, nsum=False, steptype="linear"):
                 
         x_mid=10.0**((np.log10(x_upper)+np.log10(x_lower))/2.)
 
+    #Rounding must not leave the smallest and largest values outside of the bins
+    x_lower[0]=np.amin(x)
+    if ntot > 1 or nbin == 1: x_upper[-1]=np.amax(x)
+
     x_hist=np.array([])
     x_sum=np.array([])
 
-- 
2.43.0


From 660651a6a8343607b70c4b76fc6933b401d662cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 38/82] fix: last equal-number roaming bin counted values above
 its upper limit

---
 clustertools/util/recipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index e7288c2..6c43afa 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -205,7 +205,7 @@ def roaming_nbinmaker(x, nbin=10, ntot=20, nsum=False):
         if i<np.sum(indx)-1:
             xindx = (x >= x_lower[i]) * (x < x_upper[i])
         else:
-            xindx = (x >= x_lower[i])
+            xindx = (x >= x_lower[i]) * (x <= x_upper[i])
 
         x_hist = np.append(x_hist, np.sum(xindx))
         x_sum = np.append(x_sum, np.sum(x[xindx]))
-- 
2.43.0


From e1b28061c046afda5b99df3df42c3a00b8a324bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 39/82] fix: power-law draws with positive slopes followed
 another distribution

---
 clustertools/util/recipes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/clustertools/util/recipes.py b/clustertools/util/recipes.py
index 6c43afa..ce75c8a 100644
--- a/clustertools/util/recipes.py
+++ b/clustertools/util/recipes.py
@@ -318,12 +318,10 @@ def power_law_distribution_function(n, alpha, xmin, xmax):
     eta = alpha + 1.0
 
     if xmin == xmax:
-        x = xmin
+        x = np.ones(n) * xmin
     elif alpha == 0:
         x = xmin + np.random.random(n) * (xmax - xmin)
-    elif alpha > 0:
-        x = xmin + np.random.power(eta, n) * (xmax - xmin)
-    elif alpha < 0 and alpha != -1.0:
+    elif alpha != -1.0:
         x = (xmin ** eta + (xmax ** eta - xmin ** eta) * np.random.rand(n)) ** (
             1.0 / eta
         )
-- 
2.43.0


From abf50da7dba9374f6ec5d6cdd43c2c5d2edcc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 40/82] fix: find_centre_of_density ignored the method and
 number of neighbours

---
 clustertools/cluster/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 2e5d4eb..a0b504f 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2324,7 +2324,7 @@ class StarCluster(object):
 
         xc,yc,zc,vxc,vyc,vzc=find_centre_of_density(self,xstart=xstart,
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
-            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
+            nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax,method=method,nneighbour=nneighbour)
 
         self._set_centre(xc,yc,zc,vxc,vyc,vzc,reset_centre=reset_centre)
 
-- 
2.43.0


From 6a01c0e2ea48363fc36aa3905e30ea76af6743e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 41/82] fix: setting the centre failed in AMUSE and kept an old
 centre in the galaxy frame

---
 clustertools/cluster/cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index a0b504f..0904e5f 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2376,10 +2376,15 @@ class StarCluster(object):
         """
         if self.origin=='centre':
 
+            if self.units=='amuse':
+                r0, v0 = 0.0 | u.pc, 0.0 | u.kms
+            else:
+                r0, v0 = 0.0, 0.0
+
             warning=False
-            if xc!=0.0 or yc!=0.0 or zc!=0.0:
+            if xc!=r0 or yc!=r0 or zc!=r0:
                 warning=True
-            if vxc!=0.0 or vyc!=0.0 or vzc!=0.0:
+            if vxc!=v0 or vyc!=v0 or vzc!=v0:
                 warning=True
 
             if warning:
@@ -2399,8 +2404,6 @@ class StarCluster(object):
                     self.vxgc, self.vygc, self.vzgc = vxc, vyc, vzc
                     self.xc, self.yc, self.zc = 0.0, 0.0, 0.0
                     self.vxc, self.vyc, self.vzc = 0.0, 0.0, 0.0
-                elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
-                    pass
                 else:
                     self.xc,self.yc,self.zc=xc-self.xgc,yc-self.ygc,zc-self.zgc
                     self.vxc,self.vyc,self.vzc=vxc-self.vxgc,vyc-self.vygc,vzc-self.vzgc
@@ -2412,8 +2415,6 @@ class StarCluster(object):
                     self.xc, self.yc, self.zc = 0.0 | u.pc, 0.0 | u.pc, 0.0 | u.pc
                     self.vxc, self.vyc, self.vzc = 0.0 | u.kms, 0.0 | u.kms , 0.0 | u.kms
 
-                elif (self.xgc, self.ygc, self.zgc,self.vxgc, self.vygc, self.vzgc)==(xc,yc,zc,vxc,vyc,vzc):
-                    pass
                 else:
                     self.xc,self.yc,self.zc=xc-self.xgc,yc-self.ygc,zc-self.zgc
                     self.vxc,self.vyc,self.vzc=vxc-self.vxgc,vyc-self.vygc,vzc-self.vzgc
-- 
2.43.0


From 324616f9699483076f6ceb57e2d73d85c37fec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 42/82] fix: casertano density centre ignored the subset of
 stars

---
 clustertools/analysis/functions.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index ca846b8..20db0c7 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -252,7 +252,7 @@ def find_centre_of_density(
             ystart=ystart,zstart=zstart,vxstart=vxstart,vystart=vystart,vzstart=vzstart,indx=indx,
             nsphere=nsphere,rmin=rmin,rmax=rmax,nmax=nmax)
     elif method=='casertano':
-        xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_casertano(cluster,nneighbour=nneighbour)
+        xdc, ydc, zdc,vxdc, vydc, vzdc=find_centre_of_density_casertano(cluster,indx=indx,nneighbour=nneighbour)
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
@@ -263,6 +263,7 @@ def find_centre_of_density(
 
 def find_centre_of_density_casertano(
     cluster,
+    indx=None,
     nneighbour=6,
 ):
 
@@ -275,6 +276,8 @@ def find_centre_of_density_casertano(
     ----------
     cluster : class
         StarCluster
+    indx : bool
+        subset of stars to use when finding center
     nneighbour : int
         number of neighbours for calculation local densities
 
@@ -288,25 +291,31 @@ def find_centre_of_density_casertano(
     2022 - Written - Webb (UofT)
     """
 
-    pos=np.column_stack([cluster.x,cluster.y,cluster.z])
-    vel=np.column_stack([cluster.vx,cluster.vy,cluster.vz])
+    if indx is None:
+        indx = np.ones(cluster.ntot, bool)
+
+    m = cluster.m[indx]
+    x, y, z = cluster.x[indx], cluster.y[indx], cluster.z[indx]
+    vx, vy, vz = cluster.vx[indx], cluster.vy[indx], cluster.vz[indx]
+
+    pos=np.column_stack([x,y,z])
 
     tree=cKDTree(pos)
     dist, arg = tree.query(pos, k=nneighbour)
 
     #Sum the masses but ignore last neighbour
-    mass=np.sum(cluster.m[arg],axis=1)-cluster.m[arg[:,-1]]
+    mass=np.sum(m[arg],axis=1)-m[arg[:,-1]]
     #Set volume equal using cube of distance to outermost neighbour
     vol=(dist[:,-1]**3.)
     rhos=mass/vol
     rhototal=np.sum(rhos)
 
-    xdc=np.sum(rhos*cluster.x/rhototal)
-    ydc=np.sum(rhos*cluster.y/rhototal)
-    zdc=np.sum(rhos*cluster.z/rhototal)
-    vxdc=np.sum(rhos*cluster.vx/rhototal)
-    vydc=np.sum(rhos*cluster.vy/rhototal)
-    vzdc=np.sum(rhos*cluster.vz/rhototal)
+    xdc=np.sum(rhos*x/rhototal)
+    ydc=np.sum(rhos*y/rhototal)
+    zdc=np.sum(rhos*z/rhototal)
+    vxdc=np.sum(rhos*vx/rhototal)
+    vydc=np.sum(rhos*vy/rhototal)
+    vzdc=np.sum(rhos*vz/rhototal)
 
     return xdc, ydc, zdc,vxdc, vydc, vzdc
 
-- 
2.43.0


From 1837af4f67e32d7fcfb052ec5ec531241106dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:31 +0000
Subject: [PATCH 43/82] fix: unit conversions of plain lists

---
 clustertools/util/units.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index dd73dab..c11cf7e 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -44,7 +44,7 @@ def _convert_length(x,units,cluster):
     if units!=cluster.units:
 
         #Leave the array passed in as it was
-        x=x*1.0
+        x=np.array(x)*1.0 if isinstance(x,list) else x*1.0
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
@@ -140,7 +140,7 @@ def _convert_velocity(x,units,cluster):
     if units!=cluster.units:
 
         #Leave the array passed in as it was
-        x=x*1.0
+        x=np.array(x)*1.0 if isinstance(x,list) else x*1.0
 
         if units=='nbody':
             if cluster.units=='pckms' or cluster.units=='pcmyr' or cluster.units=='amuse':
@@ -237,7 +237,7 @@ def _convert_square_velocity(x,units,cluster):
     if units!=cluster.units:
 
         #Leave the array passed in as it was
-        x=x*1.0
+        x=np.array(x)*1.0 if isinstance(x,list) else x*1.0
 
 
         if units=='nbody':
@@ -339,7 +339,7 @@ def _convert_time(x,units,cluster):
     if units!=cluster.units:
 
         #Leave the array passed in as it was
-        x=x*1.0
+        x=np.array(x)*1.0 if isinstance(x,list) else x*1.0
 
 
         to=conversion.time_in_Gyr(ro=cluster._ro,vo=cluster._vo)
@@ -430,7 +430,7 @@ def _convert_mass(x,units,cluster):
     if units!=cluster.units:
 
         #Leave the array passed in as it was
-        x=x*1.0
+        x=np.array(x)*1.0 if isinstance(x,list) else x*1.0
 
 
         if units=='nbody':
@@ -504,7 +504,7 @@ def _convert_density(x,units,cluster,projected=False):
     if units!=cluster.units:
 
         #Leave the array passed in as it was
-        x=x*1.0
+        x=np.array(x)*1.0 if isinstance(x,list) else x*1.0
 
 
 
-- 
2.43.0


From c11ed6be7113c22d85d5baaa671d01801c2c8097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:39 +0000
Subject: [PATCH 44/82] fix: sky conversions rounded the masses

---
 clustertools/cluster/operations.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index dcf7684..2403c0c 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -472,8 +472,20 @@ def to_radec(cluster, sortstars=True,centre_method=None,analyze=True):
 
             #Always transform the current phase-space coordinates, as any previously
             #initialized orbits may be out of date or relative to a different origin
-            orbit=initialize_orbit(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-            orbits=initialize_orbits(cluster,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
+            R, phi, z = coords.rect_to_cyl(cluster.xgc, cluster.ygc, cluster.zgc)
+            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vxgc, cluster.vygc, cluster.vzgc, cluster.xgc, cluster.ygc, cluster.zgc)
+
+            orbit = Orbit(
+                [R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi], ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
+
+            R, phi, z = coords.rect_to_cyl(cluster.x, cluster.y, cluster.z)
+            vR, vT, vz = coords.rect_to_cyl_vec(cluster.vx, cluster.vy, cluster.vz, cluster.x, cluster.y, cluster.z)
+
+            orbits = Orbit(
+                np.column_stack([R/ro, vR/vo, vT/vo, z/ro, vz/vo, phi]), ro=ro, vo=vo, zo=zo, solarmotion=solarmotion
+            )
+
             if cluster.orbit is None: cluster.orbit=orbit
             if cluster.orbits is None: cluster.orbits=orbits
 
-- 
2.43.0


From a02177be8a337796d24ea285eeab3b05d1567334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:16 +0000
Subject: [PATCH 45/82] fix: sky coordinates taken from the orbit were not
 those of the stars' positions

---
 clustertools/cluster/cluster.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 0904e5f..f68afe0 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -1025,6 +1025,11 @@ class StarCluster(object):
                 if np.array_equal(self.vlos,np.zeros(len(self.vlos))):
                     self.vlos += self.vlos_gc
 
+                if len(self.ra) == len(self.x) and len(self.x) > 0:
+                    self.x,self.y,self.z = np.array(self.ra),np.array(self.dec),np.array(self.dist)
+                    self.vx,self.vy,self.vz = np.array(self.pmra),np.array(self.pmdec),np.array(self.vlos)
+                    self.analyze()
+
         if initialize:
             if self.origin=='galaxy' or self.origin=='sky':
                 self.initialize_orbit(from_centre=from_centre,ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
-- 
2.43.0


From b143a18fb8c75c21006d294d43626684f7520019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 46/82] fix: large star ids were rounded

---
 clustertools/cluster/cluster.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index f68afe0..5760c82 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -518,7 +518,7 @@ class StarCluster(object):
             else:
                 ids=id[arg1]
 
-            self.id=np.append(ids,self.id)
+            self.id=_append_ids(ids,self.id)
 
             if m0 is not None:
                 self.m0=np.append(m0[arg1]+m0[arg2],self.m0)
@@ -576,9 +576,7 @@ class StarCluster(object):
         else:
             ids=id[args:]
 
-        self.id = np.append(self.id, ids)
-
-        self.id = self.id.astype(int)
+        self.id = _append_ids(self.id, ids)
 
         # Check lengths
 
@@ -778,7 +776,7 @@ class StarCluster(object):
                 ids=id1
                 self.id1=np.append(id1,self.id1)
 
-            self.id=np.append(ids,self.id)
+            self.id=_append_ids(ids,self.id)
 
             if id2 is not None:
                 self.id2=np.append(id2,self.id2)
@@ -4027,6 +4025,29 @@ def _get_subset(
 
     return indx
 
+def _append_ids(first, second):
+    """Join two sets of star ids without rounding large integers (e.g. 64 bit AMUSE keys or Gaia source ids)
+
+    Parameters
+    ----------
+    first,second : int
+        ids
+
+    Returns
+    -------
+    ids : int
+        all ids
+    """
+
+    ids=[np.atleast_1d(first),np.atleast_1d(second)]
+    ids=[i if i.dtype.kind in 'iu' else i.astype(int) for i in ids]
+
+    dtype=int
+    if any(len(i)>0 and np.amax(i)>np.iinfo(np.int64).max for i in ids):
+        dtype=np.uint64
+
+    return np.concatenate([i.astype(dtype) for i in ids])
+
 def sub_cluster(
     cluster,
     rmin=None,
-- 
2.43.0


From 6d479bdeb3458c121e7e6780dc6d5cde86575bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:55 +0000
Subject: [PATCH 47/82] fix: the column mapper given by the user was emptied

---
 clustertools/io/astropy_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/astropy_table.py b/clustertools/io/astropy_table.py
index e9df60f..c8631aa 100644
--- a/clustertools/io/astropy_table.py
+++ b/clustertools/io/astropy_table.py
@@ -70,7 +70,7 @@ def _get_astropy_table(
     2020 - Written - Starkman (UofT)
     """
 
-    cm = column_mapper or {}  # None -> {}
+    cm = dict(column_mapper or {})  # None -> {}
 
     if column_mapper is None:
         # lower-case colum names
-- 
2.43.0


From 9dd98c005c6bbbca7f259ec161ab8e06635f65ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 48/82] fix: AMUSE stars lost their ids and could not be added
 to existing stars

---
 clustertools/cluster/cluster.py    | 26 ++++++++++++++++-------
 clustertools/cluster/operations.py | 34 ++++++++----------------------
 2 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 5760c82..13683f6 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -478,14 +478,21 @@ class StarCluster(object):
                 stars=Particles(len(x))
                 stars.x,stars.y,stars.z=x,y,z
                 stars.vx,stars.vy,stars.vz=vx,vy,vz
-                stars.mass=m
-                stars.key=id
+                if m is not None:
+                    stars.mass=m
+                else:
+                    stars.mass=np.ones(len(x)) | u.MSun
 
-                if isinstance(self.tphys,ScalarQuantity):
-                    self.tphys=self.tphys.value_in(u.Myr)
+                #Stars, orbits and times that are already there have to be in the same units
+                units0=self.units
+                if units0 is None or units0=='amuse':
+                    from_amuse(self)
+                    self.units='pckms'
+                else:
+                    self.to_pckms(analyze=False)
 
-                self.units='pckms'                
-                x,y,z,vx,vy,vz,m,id=_convert_amuse(stars,self)
+                #The keys of AMUSE particles can not be set, so keep the ids that were given
+                x,y,z,vx,vy,vz,m,_=_convert_amuse(stars,self)
                 isamuse=True
 
 
@@ -674,8 +681,11 @@ class StarCluster(object):
             self.vlos = np.append(self.vlos, vz)
 
 
-        if isamuse and (self.units_init is None or self.units_init == 'amuse'):
-            self.to_amuse()
+        if isamuse:
+            if self.units_init is None or self.units_init == 'amuse' or units0 == 'amuse':
+                self.to_amuse(analyze=False)
+            else:
+                self.to_units(units0)
 
         if analyze: self.analyze(sortstars=sortstars)
 
diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 2403c0c..21ba6e1 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -801,32 +801,16 @@ def from_amuse(cluster):
 
     """
 
-    if cluster.units == 'amuse':
-
-        cluster.tphys = cluster.tphys.value_in(u.Myr)
-
-        cluster.x=cluster.x.value_in(u.parsec)
-        cluster.y=cluster.y.value_in(u.parsec)
-        cluster.z=cluster.z.value_in(u.parsec)
-        cluster.vx=cluster.vx.value_in(u.kms)
-        cluster.vy=cluster.vy.value_in(u.kms)
-        cluster.vz=cluster.vz.value_in(u.kms)
-        cluster.m=cluster.m.value_in(u.MSun)
-
-        cluster.xc=cluster.xc.value_in(u.parsec)
-        cluster.yc=cluster.yc.value_in(u.parsec)
-        cluster.zc=cluster.zc.value_in(u.parsec)
-        cluster.vxc=cluster.vxc.value_in(u.kms)
-        cluster.vyc=cluster.vyc.value_in(u.kms)
-        cluster.vzc=cluster.vzc.value_in(u.kms)
-
-        cluster.xgc=cluster.xgc.value_in(u.parsec)
-        cluster.ygc=cluster.ygc.value_in(u.parsec)
-        cluster.zgc=cluster.zgc.value_in(u.parsec)
-        cluster.vxgc=cluster.vxgc.value_in(u.kms)
-        cluster.vygc=cluster.vygc.value_in(u.kms)
-        cluster.vzgc=cluster.vzgc.value_in(u.kms)
+    if cluster.units == 'amuse' or cluster.units is None:
 
+        #Anything that has not been given as an AMUSE quantity (e.g. before stars are added) is left as is
+        for names,unit in ((['tphys'],u.Myr),(['m'],u.MSun),
+            (['x','y','z','xc','yc','zc','xgc','ygc','zgc'],u.parsec),
+            (['vx','vy','vz','vxc','vyc','vzc','vxgc','vygc','vzgc'],u.kms)):
+
+            for name in names:
+                value=getattr(cluster,name)
+                if hasattr(value,'value_in'): setattr(cluster,name,value.value_in(unit))
 
         cluster.units = "pckms"
 
-- 
2.43.0


From f5cf09c74dab5d42538b447d317cf4cb1f5e16b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 49/82] fix: AMUSE files: orbit files raised NameError and the
 last snapshot repeated

---
 clustertools/io/amuse.py | 2 +-
 clustertools/io/load.py  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/amuse.py b/clustertools/io/amuse.py
index 0b55c70..9db7e54 100644
--- a/clustertools/io/amuse.py
+++ b/clustertools/io/amuse.py
@@ -24,7 +24,7 @@ except:
 
 
 def _get_amuse_particles(
-    particles, units=None, origin=None, ofile=None, **kwargs
+    particles, units=None, origin=None, ofile=None, advance=False, **kwargs
 ):
     """Convert AMUSE particle dataset to a StarCluster instance
 
diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 3587e24..3e08809 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -586,7 +586,9 @@ def advance_cluster(
         if filename is not None:
             filetype=kwargs.pop("filetype","hdf5")
             particles = read_set_from_file(filename, filetype)
-            cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile,**advance_kwargs,**kwargs)
+            cluster = _get_amuse_particles(particles, units=cluster.units_init, origin=cluster.origin_init, ofile=ofile, advance=True, **advance_kwargs,**kwargs)
+        else:
+            cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,**advance_kwargs, **kwargs)
 
     else:
         cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,**advance_kwargs, **kwargs)
-- 
2.43.0


From cf6c8c23240b96910a7b74b613f0069e03c91570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 50/82] fix: AMUSE particles could not be loaded in WDunits or
 galpy units

---
 clustertools/util/units.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/clustertools/util/units.py b/clustertools/util/units.py
index c11cf7e..1b3d2b5 100644
--- a/clustertools/util/units.py
+++ b/clustertools/util/units.py
@@ -646,6 +646,26 @@ def _convert_amuse(particles,cluster):
         vy = particles.vy.value_in(u.parsec/u.Myr)
         vz = particles.vz.value_in(u.parsec/u.Myr)
 
+    elif cluster.units == "WDunits":
+        m = particles.mass.value_in(u.MSun)/222288.4543021174
+        x = particles.x.value_in(u.kpc)
+        y = particles.y.value_in(u.kpc)
+        z = particles.z.value_in(u.kpc)
+        vx = particles.vx.value_in(u.kpc/u.Gyr)
+        vy = particles.vy.value_in(u.kpc/u.Gyr)
+        vz = particles.vz.value_in(u.kpc/u.Gyr)
+
+    elif cluster.units == "galpy":
+        ro,vo=cluster._ro,cluster._vo
+
+        m = particles.mass.value_in(u.MSun)/conversion.mass_in_msol(ro=ro, vo=vo)
+        x = particles.x.value_in(u.kpc)/ro
+        y = particles.y.value_in(u.kpc)/ro
+        z = particles.z.value_in(u.kpc)/ro
+        vx = particles.vx.value_in(u.kms)/vo
+        vy = particles.vy.value_in(u.kms)/vo
+        vz = particles.vz.value_in(u.kms)/vo
+
     return x,y,z,vx,vy,vz,m,ids
 
 
-- 
2.43.0


From e8f666f13a7b911daf54223ad014a76ac95ef111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 51/82] fix: galpy orbits: use the orbits' own scales and
 accept integer masses

---
 clustertools/io/galpydf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/clustertools/io/galpydf.py b/clustertools/io/galpydf.py
index 2d71c9d..e894eb1 100644
--- a/clustertools/io/galpydf.py
+++ b/clustertools/io/galpydf.py
@@ -11,7 +11,7 @@ from ..util.constants import *
 from .orbit import _get_cluster_orbit
 
 def _get_galpy_orbits(
-    orbits, units=None, origin=None, ofile=None,ro=solar_ro,vo=solar_vo,**kwargs
+    orbits, units=None, origin=None, ofile=None,ro=None,vo=None,advance=False,**kwargs
 ):
     """Convert galpy orbits to a StarCluster instance
 
@@ -54,6 +54,10 @@ def _get_galpy_orbits(
         **kwargs
     )
 
+    #Unless told otherwise, use the scales that the orbits were set up with
+    if ro is None: ro = orbits._ro if getattr(orbits,'_roSet',False) else solar_ro
+    if vo is None: vo = orbits._vo if getattr(orbits,'_voSet',False) else solar_vo
+
     if units=='galpy':
         mo=conversion.mass_in_msol(ro=ro, vo=vo)
     else:
@@ -64,7 +68,7 @@ def _get_galpy_orbits(
 
     if masses is None:
         masses = np.ones(len(orbits))
-    elif isinstance(masses,float):
+    elif np.ndim(masses)==0:
         masses = np.ones(len(orbits))*masses
 
     if units=='galpy' and (ro != 1. or vo != 1.):
-- 
2.43.0


From 181472eeec6b133e3ba93972a81e42c0c1b12d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 52/82] fix: limepy clusters: orbit files raised TypeError and
 stars were not moved to the galaxy frame

---
 clustertools/io/limepydf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 8ea920b..0a87cff 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -28,6 +28,7 @@ except:
     pass
 
 from ..cluster.cluster import StarCluster
+from .orbit import _get_cluster_orbit as _read_cluster_orbit
 
 def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance=False, **kwargs):
     """ Setup an N-body realization of a StarCluster with specific parameters
@@ -86,6 +87,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
     model=kwargs.pop("model",None)
     citation=kwargs.pop("citation",True)
 
+    #Stars are only moved to the galaxy frame (below) once the cluster has an orbital position
     if gcname is not None:
         source = kwargs.pop("source", "default")
         mbar = kwargs.pop("mbar", 1.)
@@ -95,7 +97,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             if units=='nbody': cluster.reset_nbody_scale(rvirial=True)
             cluster.to_units(units)
 
-        if cluster.origin!=origin:
+        if cluster.origin!=origin and origin!='galaxy':
             cluster.to_origin(origin)
 
     else:
@@ -103,7 +105,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
         cluster.units=units
         cluster.bunits=units
 
-        if cluster.origin!=origin:
+        if cluster.origin!=origin and origin!='galaxy':
             cluster.to_origin(origin)
 
     if cluster.ntot>0:
@@ -125,7 +127,7 @@ def _get_limepy(units="pckms", origin="cluster", orbit=None, ofile=None, advance
             )
 
         elif ofile != None:
-            _get_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
+            _read_cluster_orbit(cluster, ofile, advance=advance, **kwargs)
 
         if origin=='galaxy':
             cluster.to_galaxy()
-- 
2.43.0


From dd3bf284fdf216e7d784ec8036130c4f3fd2fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 53/82] fix: a galpy orbit given when loading or advancing was
 evaluated in the wrong units or raised UnboundLocalError

---
 clustertools/io/load.py | 128 ++++++++++++++++++----------------------
 1 file changed, 57 insertions(+), 71 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 3e08809..494a9ca 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -290,57 +290,8 @@ def load_cluster(
 
     # Add galpy orbit if given
     if orbit is not None:
-        cluster.orbit = orbit
-        if cluster.units == "pckms":
-            t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0,
-                orbit.y(t) * 1000.0,
-                orbit.z(t) * 1000.0,
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        if cluster.units == "kpckms":
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
-        elif cluster.units == "nbody":
-            t = (cluster.tphys * cluster.tbar / 1000.0) / conversion.time_in_Gyr(
-                ro=solar_ro, vo=solar_vo
-            )
-            cluster.add_orbit(
-                orbit.x(t) * 1000.0 / cluster.rbar,
-                orbit.y(t) * 1000.0 / cluster.rbar,
-                orbit.z(t) * 1000.0 / cluster.rbar,
-                orbit.vx(t) / cluster.vbar,
-                orbit.vy(t) / cluster.vbar,
-                orbit.vz(t) / cluster.vbar,
-            )
-        elif cluster.units == "galpy":
-            t = cluster.tphys
-            cluster.add_orbit(
-                orbit.x(t) / 8.0,
-                orbit.y(t) / 8.0,
-                orbit.z(t) / 8.0,
-                orbit.vx(t) / 220.0,
-                orbit.vy(t) / 220.0,
-                orbit.vz(t) / 220.0,
-            )
-
-        units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
+        _add_galpy_orbit(cluster, orbit)
 
-        if cluster.origin is not None: 
-            cluster.to_cluster(sortstars=False)
-            cluster.find_centre()
-            cluster.return_cluster(units0,origin0, rorder0, rorder_origin0 )
-        else:
-            cluster.find_centre()
     elif initialize:
         origin0=cluster.origin
         cluster.to_galaxy()
@@ -628,30 +579,65 @@ def advance_cluster(
             cluster.ofile=ofile
 
         # Add galpy orbit if given
-        if orbit != None:
-            cluster.orbit = orbit
-            if cluster.units == "pckms" or cluster.units == "kpckms":
-                t = (cluster.tphys / 1000.0) / conversion.time_in_Gyr(
-                    ro=solar_ro, vo=solar_vo
-                )
-            elif cluster.units == "nbody":
-                t = (
-                    cluster.tphys * cluster.tbar / 1000.0
-                ) / conversion.time_in_Gyr(ro=solar_ro, vo=solar_vo)
-            elif cluster.units == "galpy":
-                t = cluster.tphys
-
-            cluster.add_orbit(
-                orbit.x(t),
-                orbit.y(t),
-                orbit.z(t),
-                orbit.vx(t),
-                orbit.vy(t),
-                orbit.vz(t),
-            )
+        if orbit is not None:
+            _add_galpy_orbit(cluster, orbit)
 
     return cluster
 
+def _add_galpy_orbit(cluster, orbit):
+    """Set the cluster's orbital position to where a galpy orbit is at the cluster's time
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+    orbit : class
+        galpy orbit, assumed to be at the cluster's position when cluster.tphys=0
+
+    Returns
+    -------
+    None
+    """
+    cluster.orbit = orbit
+
+    if cluster.units is None:
+        return
+
+    #Time in Gyr
+    if cluster.units == "pckms" or cluster.units == "pcmyr":
+        tgyr = cluster.tphys / 1000.0
+    elif cluster.units == "nbody":
+        tgyr = cluster.tphys * cluster.tbar / 1000.0
+    elif cluster.units == "galpy":
+        tgyr = cluster.tphys * conversion.time_in_Gyr(ro=cluster._ro, vo=cluster._vo)
+    elif cluster.units == "amuse":
+        tgyr = cluster.tphys.value_in(u.Gyr)
+    else:
+        tgyr = cluster.tphys
+
+    ro, vo = orbit._ro, orbit._vo
+    t = tgyr / conversion.time_in_Gyr(ro=ro, vo=vo)
+
+    cluster.add_orbit(
+        orbit.x(t,ro=ro,vo=vo),
+        orbit.y(t,ro=ro,vo=vo),
+        orbit.z(t,ro=ro,vo=vo),
+        orbit.vx(t,ro=ro,vo=vo),
+        orbit.vy(t,ro=ro,vo=vo),
+        orbit.vz(t,ro=ro,vo=vo),
+        "kpckms",
+    )
+
+    #Find the cluster's centre with respect to its orbital position
+    units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
+
+    if cluster.origin is not None: 
+        cluster.to_cluster(sortstars=False)
+        cluster.find_centre()
+        cluster.return_cluster(units0,origin0, rorder0, rorder_origin0 )
+    else:
+        cluster.find_centre()
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
-- 
2.43.0


From b21dea1c1aa19c459f73fe7a8d5fca66bfcfebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 54/82] fix: a cluster created with a galpy orbit had its
 position in kpc whatever its units

---
 clustertools/cluster/cluster.py | 35 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 13683f6..482c817 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -237,27 +237,12 @@ class StarCluster(object):
         self.orbits= None
 
         # variables for orbital position and kinematics
-        if self.orbit is None:
-            self.xgc = 0.0
-            self.ygc = 0.0
-            self.zgc = 0.0
-            self.vxgc = 0.0
-            self.vygc = 0.0
-            self.vzgc = 0.0
-        elif units=='radec':
-            self.xgc = self.orbit.ra()
-            self.ygc = self.orbit.dec()
-            self.zgc = self.orbit.dist()
-            self.vxgc = self.orbit.pmra()
-            self.vygc = self.orbit.pmdec()
-            self.vzgc = self.orbit.vlos()   
-        else:
-            self.xgc = self.orbit.x()
-            self.ygc = self.orbit.y()
-            self.zgc = self.orbit.z()
-            self.vxgc = self.orbit.vx()
-            self.vygc = self.orbit.vy()
-            self.vzgc = self.orbit.vz()
+        self.xgc = 0.0
+        self.ygc = 0.0
+        self.zgc = 0.0
+        self.vxgc = 0.0
+        self.vygc = 0.0
+        self.vzgc = 0.0
 
         # variable for cluster's on-sky coordinates
         self.ra = np.array([])
@@ -405,6 +390,14 @@ class StarCluster(object):
         self.ngroups=0
         self.ngroup=0
 
+        #The cluster starts out where its galpy orbit (positions in kpc, velocities in km/s) is
+        if self.orbit is not None:
+            if units=='radec':
+                self.add_orbit(self.ra_gc,self.dec_gc,self.dist_gc,self.pmra_gc,self.pmdec_gc,self.vlos_gc)
+            else:
+                self.add_orbit(self.orbit.x(),self.orbit.y(),self.orbit.z(),self.orbit.vx(),self.orbit.vy(),self.orbit.vz(),
+                    None if units is None else "kpckms")
+
     def add_stars(
         self, x, y, z, vx, vy, vz,m=None,id=None,m0=None,npop=None,nb=0,sortstars=False,analyze=True
     ):
-- 
2.43.0


From b74910d94de392b8328c8448bee6e01c0edb957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:55 +0000
Subject: [PATCH 55/82] fix: NBODY6++ HDF5: scales lost after the first
 snapshot without conf.3, and FileNotFoundError after the last

---
 clustertools/io/load.py | 54 ++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 494a9ca..9e401bc 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -398,23 +398,7 @@ def advance_cluster(
 
                 nsnap = advance_kwargs.pop("nsnap") - 1
 
-                if cluster.nc!=0. and cluster.n_p!=0.:
-
-                    units0=cluster.units
-                    if units0!='nbody': cluster.to_nbody()
-
-                    nc,rc,rbar,rtide=cluster.nc,cluster.rc,cluster.rbar,cluster.rtide
-                    xc,yc,zc=cluster.xc,cluster.yc,cluster.zc
-                    zmbar,vbar,tbar,rscale=cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale
-                    ns,nb,n_p=cluster.ns,cluster.nb,cluster.n_p
-
-                    nbody6list=[nc,rc,rbar,rtide,xc,yc,zc,zmbar,vbar,tbar,rscale,ns,nb,n_p]
-
-                    if units0!='nbody': cluster.to_units(units0)
-
-                else:
-                    nbody6list=None
-
+                nbody6list=_get_nbody6list(cluster)
                 conf3=None
                 cluster = _get_nbody6pp(conf3, snap40=cluster.sfile, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,**advance_kwargs, **kwargs)
                 
@@ -424,14 +408,19 @@ def advance_cluster(
 
                 nsnap = advance_kwargs.pop("nsnap") + dtout - 1
                 ngroup= advance_kwargs.pop("ngroup")
-
                 if os.path.isfile("%s%sconf.3_%s" % (wdir,snapdir,str(nsnap))):
                     conf3 = open("%s%sconf.3_%s" % (wdir,snapdir,str(nsnap)), "rb")
+                    nbody6list=None
                 else:
                     conf3=None
+                    nbody6list=_get_nbody6list(cluster)
 
-                snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
-                cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                if os.path.isfile("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap)):
+                    snap40 = h5py.File("%s%ssnap.40_%s.h5part" % (wdir,snapdir,nsnap), "r")
+                    cluster = _get_nbody6pp(conf3, snap40=snap40, ofile=ofile, advance=True,nbody6list=nbody6list,nsnap=nsnap,dtout=dtout,**advance_kwargs, **kwargs)
+                else:
+                    #No more snapshots
+                    cluster = StarCluster(ctype=cluster.ctype,units=cluster.units_init,origin=cluster.origin_init,ofile=ofile,nsnap=nsnap,**advance_kwargs, **kwargs)
 
         else:
             deltat=kwargs.pop('deltat',1)
@@ -638,6 +627,31 @@ def _add_galpy_orbit(cluster, orbit):
     else:
         cluster.find_centre()
 
+def _get_nbody6list(cluster):
+    """get NBODY6 parameters of the current cluster (in nbody units) for the next snapshot, when it has none of its own
+
+    Parameters
+    ----------
+    cluster : class
+        StarCluster
+
+    Returns
+    -------
+    nbody6list : list
+        see StarCluster.add_nbody6
+    """
+    units0=cluster.units
+    if units0!='nbody': cluster.to_nbody()
+
+    nbody6list=[cluster.nc,cluster.rc,cluster.rbar,cluster.rtide,
+        cluster.xc,cluster.yc,cluster.zc,
+        cluster.zmbar,cluster.vbar,cluster.tbar,cluster.rscale,
+        cluster.ns,cluster.nb,cluster.n_p]
+
+    if units0!='nbody': cluster.to_units(units0)
+
+    return nbody6list
+
 def _get_filename(filename,**kwargs):
     """assemble filename from **kwargs
 
-- 
2.43.0


From 27e6a4e0200b52613c142e4caa48836746a0acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:32 +0000
Subject: [PATCH 56/82] fix: advance_cluster forgot which columns gyrfalcon
 files have

---
 clustertools/io/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/load.py b/clustertools/io/load.py
index 9e401bc..950925e 100644
--- a/clustertools/io/load.py
+++ b/clustertools/io/load.py
@@ -753,7 +753,7 @@ def _get_advanced_kwargs(cluster, **kwargs):
 
     otime = kwargs.pop("otime", False)
 
-    give = kwargs.pop('give','mxv')
+    give = kwargs.pop('give',cluster.give)
 
     hdf5 = kwargs.pop('hdf5',cluster.hdf5)
     ngroups = kwargs.pop('ngroups',cluster.ngroups)
-- 
2.43.0


From f7e5a2068ba4bc7157e8a9090ffd7cc345a8b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:04 +0000
Subject: [PATCH 57/82] fix: relaxation_time failed when a radius was given,
 and the method dropped its method argument

---
 clustertools/analysis/functions.py | 10 ++++++++--
 clustertools/cluster/cluster.py    |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 20db0c7..13a47b3 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -491,6 +491,10 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     """
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
+    #rad is given in the units of the cluster
+    if rad is not None and cluster.units!='pckms':
+        rad=rad/_convert_length(1.0,'pckms',cluster)
+
     if origin0 != 'cluster' and origin0 != 'centre':
         cluster.to_centre()
     else:
@@ -499,13 +503,15 @@ def relaxation_time(cluster, rad=None, coulomb=0.4, projected=False,method='spit
     cluster.to_pckms()
     grav=_get_grav(cluster)
 
+    if projected:
+        vel=cluster.vpro
+    else:
+        vel=cluster.v
 
     if rad is None and projected:
         rad=cluster.rmpro
-        vel=cluster.vpro
     elif rad is None:
         rad=cluster.rm
-        vel=cluster.v
 
     if projected:
         rindx=cluster.rpro <= rad
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 482c817..6490280 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2477,7 +2477,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        self.trelax=relaxation_time(self, rad=rad, coulomb=coulomb, projected=projected,method='spitzer')
+        self.trelax=relaxation_time(self, rad=rad, coulomb=coulomb, projected=projected,method=method)
 
         return self.trelax
 
-- 
2.43.0


From 27d1fb9af31ba806c3ebe36eb7f3fb8757275508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 58/82] fix: analysis methods ignored StarCluster.projected,
 npop and mcorr; tapered_mass_function method failed

---
 clustertools/analysis/functions.py |  6 +++-
 clustertools/cluster/cluster.py    | 49 +++++++++++++++++++-----------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 13a47b3..128b189 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -1687,6 +1687,10 @@ def tapered_mass_function(
             -1000.0,
             -1000.0,
             -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
+            -1000.0,
         )
 
 
@@ -1870,7 +1874,7 @@ def meq_function(
     emax=None,
     kwmin=0,
     kwmax=1,
-    npop=1,
+    npop=None,
     indx=None,
     projected=False,
     plot=False,
diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 6490280..6caf203 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -2771,7 +2771,7 @@ class StarCluster(object):
         kwmax=1,
         indx=None,
         mcorr=None,
-        projected=False,
+        projected=None,
         plot=False,
         **kwargs
     ):
@@ -2800,7 +2800,7 @@ class StarCluster(object):
         indx : bool 
             specific subset of stars
         projected : bool 
-            use projected values (default: False)
+            use projected values (default: self.projected)
         mcorr : float
             completeness correction for masses
         plot : bool 
@@ -2826,7 +2826,7 @@ class StarCluster(object):
         if projected==None:
             projected=self.projected
 
-        m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha = mass_function(
+        m_mean, m_hist, dm, alpha, ealpha, yalpha, eyalpha, *mbinerror = mass_function(
             self,
             mmin=mmin,
             mmax=mmax,
@@ -2851,7 +2851,7 @@ class StarCluster(object):
         return self.alpha
 
     def tapered_mass_function(
-        cluster,
+        self,
         mmin=None,
         mmax=None,
         nmass=10,
@@ -2865,7 +2865,7 @@ class StarCluster(object):
         kwmax=1,
         npop=None,
         indx=None,
-        projected=False,
+        projected=None,
         mcorr=None,
         plot=False,
         **kwargs
@@ -2896,7 +2896,7 @@ class StarCluster(object):
         indx : bool 
             specific subset of stars
         projected : bool 
-            use projected values (default: False)
+            use projected values (default: self.projected)
         mcorr : float
             completeness correction for masses
         plot : bool 
@@ -2924,7 +2924,7 @@ class StarCluster(object):
             projected=self.projected
 
         m_mean, m_hist, dm, A, eA, alpha, ealpha, mc, emc, beta, ebeta= tapered_mass_function(
-            cluster,
+            self,
             mmin=mmin,
             mmax=mmax,
             nmass=nmass,
@@ -2962,7 +2962,7 @@ class StarCluster(object):
         kwmin=0,
         kwmax=1,
         indx=None,
-        projected=False,
+        projected=None,
         plot=False,
         **kwargs
     ):
@@ -2992,7 +2992,7 @@ class StarCluster(object):
         indx : bool 
             specific subset of stars
         projected : bool 
-            use projected values (default: False)
+            use projected values (default: self.projected)
         plot : bool 
             plot the mass function
 
@@ -3010,6 +3010,9 @@ class StarCluster(object):
         -------
         2018 - Written - Webb (UofT)
         """
+        if projected==None:
+            projected=self.projected
+
         self.mmin=mmin
         self.mmax=mmax
 
@@ -3050,7 +3053,7 @@ class StarCluster(object):
         kwmin=0,
         kwmax=1,
         indx=None,
-        projected=False,
+        projected=None,
         plot=False,
         **kwargs
     ):
@@ -3085,7 +3088,7 @@ class StarCluster(object):
         indx : bool 
             specific subset of stars
         projected : bool 
-            use projected values (default: False)
+            use projected values (default: self.projected)
         plot : bool 
             plot the mass function
 
@@ -3103,6 +3106,8 @@ class StarCluster(object):
         -------
         2020
         """
+        if projected==None:
+            projected=self.projected
 
         self.mmin=mmin
         self.mmax=mmax
@@ -3143,7 +3148,8 @@ class StarCluster(object):
         kwmin=0,
         kwmax=1,
         indx=None,
-        projected=False,
+        projected=None,
+        **kwargs
     ):
         """
         NAME: Find the kinematic concentration parameter ck
@@ -3171,7 +3177,7 @@ class StarCluster(object):
         indx : bool 
             specific subset of stars
         projected : bool 
-            use projected values (default: False)
+            use projected values (default: self.projected)
 
         Returns
         -------
@@ -3187,6 +3193,9 @@ class StarCluster(object):
         -------
         2020
         """
+        if projected==None:
+            projected=self.projected
+
         c_k = ckin(
             self,
             mmin=mmin,
@@ -3202,6 +3211,7 @@ class StarCluster(object):
             kwmax=kwmax,
             indx=indx,
             projected=projected,
+            **kwargs
         )
 
         self.ck=c_k
@@ -3213,7 +3223,7 @@ class StarCluster(object):
         method='casertano',
         nneighbour=6,
         mfrac=0.1,
-        projected=False,
+        projected=None,
         plot=False,
         **kwargs
     ):
@@ -3236,7 +3246,7 @@ class StarCluster(object):
             mfrac : float
                 inner mass fraction to be used to establish the central density
         projected : bool
-            use projected values (default: False)
+            use projected values (default: self.projected)
         plot : bool
             plot the density profile and mark the core radius of the cluster (default: False)
 
@@ -3253,6 +3263,8 @@ class StarCluster(object):
         -------
         2021 - Written - Webb (UofT)
         """
+        if projected==None:
+            projected=self.projected
 
 
         self.rc = rcore(
@@ -3323,7 +3335,7 @@ class StarCluster(object):
         pot=None,
         rgc=None,
         nrad=20,
-        projected=False,
+        projected=None,
         plot=False,
         from_centre=False,
         verbose=False,
@@ -3348,7 +3360,7 @@ class StarCluster(object):
         nrad : int
             number of radial bins used to calculate density profile (Default: 20)
         projected : bool
-            use projected values (default: False)
+            use projected values (default: self.projected)
         plot : bool
             plot the density profile and mark the limiting radius of the cluster (default: False)
         from_centre : bool
@@ -3369,6 +3381,9 @@ class StarCluster(object):
         -------
         2019 - Written - Webb (UofT)
         """
+        if projected==None:
+            projected=self.projected
+
         self.rl = rlimiting(
             self,
             pot=pot,
-- 
2.43.0


From a9a83337f64000dbb045130053e441c5a7bc6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 59/82] fix: calling rcore changed the centre of a cluster
 whose centre was not known yet

---
 clustertools/analysis/functions.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 128b189..a2ed34e 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2129,11 +2129,16 @@ def rcore(
     """
     units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
 
+    orbit0=(cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc)
+    centre0=(cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc)
+    found=False
+
     if cluster.units=='amuse':
         cluster.to_pckms()
 
     if origin0 != 'centre':
         if cluster.xc==0. and cluster.yc==0. and cluster.zc==0.0:
+            found=True
             if method=='casertano':
                 cluster.find_centre(method='casertano')
             else:
@@ -2173,6 +2178,7 @@ def rcore(
             rho_c=mc/volc
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        if found: _restore_centre(cluster,orbit0,centre0)
         if cluster.units=='amuse': rc=_convert_length(rc,'pckms',cluster)
 
     else:
@@ -2221,6 +2227,7 @@ def rcore(
 
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
+        if found: _restore_centre(cluster,orbit0,centre0)
 
         rc=_convert_length(rc,'pckms',cluster)
 
@@ -2321,6 +2328,13 @@ def rcore(
 
     return rc
 
+def _restore_centre(cluster,orbit0,centre0):
+    """Return the centre of a cluster to what it was before it had to be found
+
+    """
+    cluster.xgc,cluster.ygc,cluster.zgc,cluster.vxgc,cluster.vygc,cluster.vzgc=orbit0
+    cluster.xc,cluster.yc,cluster.zc,cluster.vxc,cluster.vyc,cluster.vzc=centre0
+
 def rtidal(
     cluster,
     pot=None,
-- 
2.43.0


From 46e72b1029f284d3374d2ac051aa42cdef6b68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:20 +0000
Subject: [PATCH 60/82] fix: meq, tapered mass function and ckin fits depended
 on the units and origin of the cluster

---
 clustertools/analysis/functions.py | 39 +++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index a2ed34e..92d73a4 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -44,7 +44,7 @@ from scipy.spatial import cKDTree
 from ..util.recipes import *
 from ..util.constants import _get_grav
 from ..util.plots import _plot,_lplot,_scatter
-from ..util.units import _convert_length,_convert_time,_convert_velocity
+from ..util.units import _convert_length,_convert_time,_convert_velocity,_convert_mass
 
 try:
     import amuse.units.units as u
@@ -1645,10 +1645,23 @@ def tapered_mass_function(
         dm = m_corr_hist / (m_upper - m_lower)
         ldm = np.log10(dm)
 
-        lower_bounds=kwargs.get('lower_bounds',[0.,-1.*np.inf,np.amin(cluster.m),-1.*np.inf])
-        upper_bounds=kwargs.get('upper_bounds',[np.inf,np.inf,np.amax(cluster.m),np.inf])
+        #Masses of order unity are needed for the fit to converge, unless bounds are given in the units of the cluster
+        mscale=1.0
+        if kwargs.get('lower_bounds',None) is None and kwargs.get('upper_bounds',None) is None:
+            mscale=_convert_mass(1.0,'pckms',cluster)
 
-        (A, alpha, mc, beta), V=curve_fit(tpl_func,10.0**np.array(lm_mean),10.0**np.array(ldm) ,bounds=(lower_bounds,upper_bounds))
+        lower_bounds=kwargs.get('lower_bounds',[0.,-1.*np.inf,np.amin(cluster.m)/mscale,-1.*np.inf])
+        upper_bounds=kwargs.get('upper_bounds',[np.inf,np.inf,np.amax(cluster.m)/mscale,np.inf])
+
+        (A, alpha, mc, beta), V=curve_fit(tpl_func,10.0**np.array(lm_mean)/mscale,10.0**np.array(ldm)*mscale ,bounds=(lower_bounds,upper_bounds))
+
+        if mscale!=1.0:
+            #dn/dm=A*m**alpha, so A scales with mscale**-(alpha+1)
+            J=np.diag([mscale**(-alpha-1.0),1.0,mscale,1.0])
+            J[0][1]=-A*np.log(mscale)*J[0][0]
+            V=J@V@J.T
+            A*=J[0][0]
+            mc*=mscale
 
         eA = np.sqrt(V[0][0])
         ealpha = np.sqrt(V[1][1])
@@ -1804,7 +1817,13 @@ def eta_function(
             lsigvm.append(np.log10(sigvm[-1]))
 
         if meq:
-            (eta, yeta), V=curve_fit(meq_func,10.0**np.array(lm_mean),10.0**np.array(lsigvm),bounds=([np.amin(cluster.m),0.],[np.amax(cluster.m),np.inf]))
+            #Values of order unity are needed for the fit to converge, whatever the units of the cluster
+            mscale,vscale=np.amax(cluster.m),np.mean(sigvm)
+            (eta, yeta), V=curve_fit(meq_func,10.0**np.array(lm_mean)/mscale,10.0**np.array(lsigvm)/vscale,bounds=([np.amin(cluster.m)/mscale,0.],[1.0,np.inf]))
+            eta*=mscale
+            yeta*=vscale
+            V[0][0]*=mscale**2.
+            V[1][1]*=vscale**2.
         else:
             (eta, yeta), V = np.polyfit(lm_mean, lsigvm, 1, cov=True)
 
@@ -2032,6 +2051,10 @@ def ckin(
     if cluster.units=='amuse':
         cluster.to_pckms()
 
+    #Lagrange radii are clustercentric
+    if origin0 != 'cluster' and origin0 != 'centre':
+        cluster.to_centre(sortstars=False)
+
     rn=rlagrange(cluster, nlagrange=10, projected=projected)
 
     m_mean50, sigvm50, meq50, emq50, sigma050, esigma050 = eta_function(cluster,
@@ -2074,7 +2097,11 @@ def ckin(
             **kwargs,
         )
 
-    ck=meq/meq50
+    if meq==-1000.0 or meq50==-1000.0:
+        print("NOT ENOUGH STARS TO ESTIMATE KINEMATIC CONCENTRATION")
+        ck=-1000.0
+    else:
+        ck=meq/meq50
 
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-- 
2.43.0


From aba259a99c359919c358cb16621e62960f1cd2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:21 +0000
Subject: [PATCH 61/82] fix: the plot of rcore failed in galpy units and scaled
 its profile twice

---
 clustertools/analysis/functions.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index 92d73a4..e2deca1 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -2198,11 +2198,14 @@ def rcore(
 
         if plot:
             nrad=int(np.ceil(1./mfrac)) 
+            rc_pc=rc/_convert_length(1.0,'pckms',cluster)
+            cluster.to_pckms()
             rprof,pprof,nprof=_rho_prof(cluster,nrad=nrad,projected=projected,plot=False,**kwargs)
-            rcindx=(cluster.r<rc)
-            mc=np.sum(cluster.m[rcindx])
-            volc=(4./3.)*np.pi*(rc**3.)
-            rho_c=mc/volc
+
+            if projected:
+                rho_c=np.sum(cluster.m[cluster.rpro<rc_pc])/(np.pi*(rc_pc**2.))
+            else:
+                rho_c=np.sum(cluster.m[cluster.r<rc_pc])/((4./3.)*np.pi*(rc_pc**3.))
 
         cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
         if found: _restore_centre(cluster,orbit0,centre0)
@@ -2210,9 +2213,6 @@ def rcore(
 
     else:
 
-        mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
-        dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
-
         cluster.to_pckms()
 
         if projected:
@@ -2260,6 +2260,9 @@ def rcore(
 
     if plot:
 
+        mo=conversion.mass_in_msol(ro=cluster._ro,vo=cluster._vo)
+        dens_in_msolpc2=(mo/cluster._ro**2.)/(1000.0**2.)
+
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
 
@@ -2307,14 +2310,14 @@ def rcore(
                 yunits = " Msun/kpc^3"
 
         elif cluster.units=='galpy':
-            rprof /=(1000.0*ro)
+            rprof /=(1000.0*cluster._ro)
 
             if projected:
                 pprof /= dens_in_msolpc2
                 rho_c /= dens_in_msolpc2
             else:
-                pprof /= conversion.dens_in_msolpc3(ro=ro, vo=vo) 
-                rho_c /= conversion.dens_in_msolpc3(ro=ro, vo=vo)               
+                pprof /= conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo) 
+                rho_c /= conversion.dens_in_msolpc3(ro=cluster._ro, vo=cluster._vo)               
 
             xunits = "(GALPY)"
             yunits = "(GALPY)"
-- 
2.43.0


From 30b05e98c2aa2a6b58e53b4c9a9c65efc552335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:54 +0000
Subject: [PATCH 62/82] fix: normalised rho/m profiles used the 3D half-mass
 radius of the frame returned to, twice when plotted; normalised alpha/sigv
 radii were converted as lengths

---
 clustertools/analysis/profiles.py | 32 +++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index e5b22de..8a514df 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -147,6 +147,12 @@ def rho_prof(
         pprof[i] = np.sum(cluster.m[rindx] / vol)
         nprof[i] = np.sum(rindx)
 
+    if normalize:
+        if projected:
+            rprof=r_mean / cluster.rmpro
+        else:
+            rprof=r_mean / cluster.rm
+
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
@@ -184,9 +190,6 @@ def rho_prof(
 
         x, y, n = rprof, pprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -206,12 +209,9 @@ def rho_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     pprof=_convert_density(pprof,units,cluster,projected=projected)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, pprof, nprof
 
 
@@ -334,6 +334,12 @@ def m_prof(
         mprof[i]=np.sum(cluster.m[rindx])
         nprof[i]=np.sum(rindx)
 
+    if normalize:
+        if projected:
+            rprof=r_mean / cluster.rmpro
+        else:
+            rprof=r_mean / cluster.rm
+
     if plot:
         filename = kwargs.pop("filename", None)
         overplot = kwargs.pop("overplot", False)
@@ -356,9 +362,6 @@ def m_prof(
 
         x, y, n = rprof, mprof, nprof
 
-        if normalize:
-            x/=cluster.rm
-
         _lplot(
             x,
             y,
@@ -377,12 +380,9 @@ def m_prof(
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
 
-    rprof=_convert_length(rprof,units,cluster)
+    if not normalize: rprof=_convert_length(rprof,units,cluster)
     mprof=_convert_mass(mprof,units,cluster)
 
-    if normalize:
-        rprof/=cluster.rm
-
     return rprof, mprof, nprof
 
 def alpha_prof(
@@ -608,7 +608,7 @@ def alpha_prof(
 
     units=cluster.units
     cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
 
 
     if aerror:
@@ -840,7 +840,7 @@ def sigv_prof(
         if filename != None:
             plt.savefig(filename)
 
-    rprofn=_convert_length(rprofn,units,cluster)
+    if not normalize: rprofn=_convert_length(rprofn,units,cluster)
     sigvprof=_convert_velocity(sigvprof,units,cluster)
 
     return rprofn, sigvprof
-- 
2.43.0


From f439439b259c1742559780ee1b18c3284ad6b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 63/82] fix: starplot left AMUSE clusters in pckms, marked the
 centre of another frame and drew two panels onto the current figure; skyplot
 marked proper motions at a position

---
 clustertools/util/plots.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/clustertools/util/plots.py b/clustertools/util/plots.py
index c116f30..abd6eef 100644
--- a/clustertools/util/plots.py
+++ b/clustertools/util/plots.py
@@ -636,22 +636,38 @@ def starplot(
             if do_centre:
                 xgc = cluster.xgc
                 ygc = cluster.zgc
+                xc = cluster.xc
+                yc = cluster.zc
         elif coords == "yz":
             x = cluster.y
             y = cluster.z
             if do_centre:
                 xgc = cluster.ygc
                 ygc = cluster.zgc
+                xc = cluster.yc
+                yc = cluster.zc
         else:
             x = cluster.x
             y = cluster.y
             if do_centre:
                 xgc = cluster.xgc
                 ygc = cluster.ygc
+                xc = cluster.xc
+                yc = cluster.yc
+
+        if do_centre:
+            if cluster.origin == "galaxy":
+                xgc, ygc = xgc + xc, ygc + yc
+            elif cluster.origin == "cluster":
+                xgc, ygc = xc, yc
+            elif cluster.origin == "centre":
+                xgc, ygc = 0.0, 0.0
 
         out = plt.plot(x, y, ".", alpha=alpha, **kwargs)
 
         if overplot:
+            if units0=='amuse':
+                cluster.to_amuse()
             return out
         else:
             if do_centre:
@@ -694,6 +710,9 @@ def starplot(
 
             plt.tight_layout()
 
+            if units0=='amuse':
+                cluster.to_amuse()
+
             if filename != None:
                 plt.savefig(filename)
 
@@ -701,6 +720,9 @@ def starplot(
 
     else:
 
+        if not overplot:
+            plt.figure()
+
         if cluster.units == "nbody":
             units = "(NBODY)"
         elif cluster.units == "pckms":
@@ -841,7 +863,10 @@ def skyplot(
         return out
     else:
         if do_centre:
-            xgc, ygc = cluster.ra_gc, cluster.dec_gc
+            if coords == "pm":
+                xgc, ygc = cluster.pmra_gc, cluster.pmdec_gc
+            else:
+                xgc, ygc = cluster.ra_gc, cluster.dec_gc
             plt.plot(xgc, ygc, ".", alpha=1.0, label="COM", **kwargs)
 
         if coords == "radec":
-- 
2.43.0


From 8a6ee25f9be31c11d588f768c876faf2e4b48f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 64/82] fix: rcore and rlimiting figures in WDunits mixed units

---
 clustertools/analysis/functions.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/functions.py b/clustertools/analysis/functions.py
index e2deca1..720a59f 100644
--- a/clustertools/analysis/functions.py
+++ b/clustertools/analysis/functions.py
@@ -44,7 +44,7 @@ from scipy.spatial import cKDTree
 from ..util.recipes import *
 from ..util.constants import _get_grav
 from ..util.plots import _plot,_lplot,_scatter
-from ..util.units import _convert_length,_convert_time,_convert_velocity,_convert_mass
+from ..util.units import _convert_length,_convert_time,_convert_velocity,_convert_mass,_convert_density
 
 try:
     import amuse.units.units as u
@@ -2322,6 +2322,14 @@ def rcore(
             xunits = "(GALPY)"
             yunits = "(GALPY)"
 
+        elif cluster.units == "WDunits":
+            rprof = _convert_length(rprof,'pckms',cluster)
+            pprof = _convert_density(pprof,'pckms',cluster,projected=projected)
+            rho_c = _convert_density(rho_c,'pckms',cluster,projected=projected)
+
+            xunits = " (kpc)"
+            yunits = ""
+
         elif cluster.units == "pckms" or cluster.units == "pcmyr":
             xunits = " (pc)"
             if projected:
@@ -2722,6 +2730,14 @@ def rlimiting(
                 yunits = " Msun/kpc^2"
             else:
                 yunits = " Msun/kpc^3"
+        elif cluster.units == "WDunits":
+            rprof = _convert_length(rprof,'galpy',cluster)
+            pprof = _convert_density(pprof,'galpy',cluster,projected=projected)
+            rho_local = _convert_density(rho_local,'galpy',cluster,projected=projected)
+
+            xunits = " (kpc)"
+            yunits = ""
+
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
-- 
2.43.0


From 98f96bffdbcdd39333e7e101ff318d1de40594aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 65/82] fix: normalised circular velocity figure marked the
 unnormalised radius

---
 clustertools/analysis/profiles.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 8a514df..144ffe1 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -2051,7 +2051,14 @@ def vcirc_prof(
             filename=filename,
             **kwargs,
         )
-        _lplot([rvmax, rvmax], [np.amin(y), np.amax(y)], "--", overplot=True)
+        rmark=rvmax
+        if normalize:
+            if projected:
+                rmark=rvmax/cluster.rmpro
+            else:
+                rmark=rvmax/cluster.rm
+
+        _lplot([rmark, rmark], [np.amin(y), np.amax(y)], "--", overplot=True)
         _lplot([np.amin(x), np.amax(x)], [vmax, vmax], "--", overplot=True)
 
         if filename != None:
-- 
2.43.0


From b4d216cac3610fdf0d02a07395d2478132ab0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:35 +0000
Subject: [PATCH 66/82] fix: orbital_path drew the stars in another frame than
 the path, and never onto an existing sky figure

---
 clustertools/analysis/orbits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 5a8e027..6c8243c 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -725,7 +725,7 @@ def orbital_path(
         if plot:
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
-            skyplot(cluster)
+            skyplot(cluster,overplot=overplot)
             plt.plot(ra,dec)
             if filename != None:
                 plt.savefig(filename)
@@ -753,7 +753,12 @@ def orbital_path(
         if plot:
             filename = kwargs.pop("filename", None)
             overplot = kwargs.pop("overplot", False)
+            #The orbital path is in galactocentric coordinates
+            units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
+            if origin0 == 'cluster' or origin0 == 'centre':
+                cluster.to_galaxy(sortstars=False)
             starplot(cluster,coords='xy',overplot=overplot)
+            cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
             _lplot(x,y,overplot=True)
 
             if filename != None:
-- 
2.43.0


From fb3cb87f08d49e2ae4509c417bee9f753f503602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:34 +0000
Subject: [PATCH 67/82] fix: interpolate_orbit(s) without a final time failed
 in AMUSE units

---
 clustertools/analysis/orbits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 6c8243c..b78b49d 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -381,7 +381,7 @@ def interpolate_orbit(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     ts,o=_integrate_orbit(cluster, pot=pot, tfinal=tfinal, nt=nt, from_centre=from_centre, ro=ro, vo=vo,zo=zo,solarmotion=solarmotion, plot=False)
 
@@ -462,7 +462,7 @@ def interpolate_orbits(
 
     if cluster.units=='amuse':
         cluster.to_pckms()
-        tfinal=tfinal.value_in(u.Myr)
+        if tfinal is not None: tfinal=tfinal.value_in(u.Myr)
 
     if cluster.origin=='centre':
         ts,o=_integrate_orbits(cluster, pot=pot, tfinal=tfinal, nt=nt, ro=ro, vo=vo, zo=zo,solarmotion=[0,0,0], plot=False)
-- 
2.43.0


From fdb791cefc63ff557bcb1c2493c149fbe591482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:24 +0000
Subject: [PATCH 68/82] fix: binaries added with add_binary_stars were missing
 from radii, speeds and selections

---
 clustertools/cluster/cluster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 6caf203..6cb0fdd 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -817,6 +817,8 @@ class StarCluster(object):
             else:
                 self.npop2=np.append(npop2,self.npop2)
 
+            self.analyze()
+
             self.ntot = len(self.x)
             self.ns=self.ntot-self.nb
 
-- 
2.43.0


From 79f7ac1e2eaf66b740f2d34a4bbf854186192149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 69/82] fix: sub_cluster failed on binaries without binary
 evolution data

---
 clustertools/cluster/cluster.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 6cb0fdd..ca6e5a4 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4221,17 +4221,21 @@ def sub_cluster(
             subcluster.kw = cluster.kw[indx]
 
 
-        if len(cluster.id2) > 0:
-            bindx1 = np.isin(cluster.id1, cluster.id[indx])
-            bindx2 = np.isin(cluster.id2, cluster.id[indx])
+        # Binary evolution data belongs to the last ids in id1 and id2, any before them to add_binary_stars
+        nbse = len(cluster.kw1)
+
+        if nbse > 0:
+            id1, id2 = cluster.id1[-nbse:], cluster.id2[-nbse:]
+            bindx1 = np.isin(id1, cluster.id[indx])
+            bindx2 = np.isin(id2, cluster.id[indx])
             bindx=np.logical_or(bindx1,bindx2)
 
 
             if len(cluster.ep1) !=0 and len(cluster.ospin1) != 0:
 
                 subcluster.add_bse(
-                    cluster.id1[bindx],
-                    cluster.id2[bindx],
+                    id1[bindx],
+                    id2[bindx],
                     cluster.kw1[bindx],
                     cluster.kw2[bindx],
                     cluster.kcm[bindx],
@@ -4251,8 +4255,8 @@ def sub_cluster(
                 )
             else:
                 subcluster.add_bse(
-                    cluster.id1[bindx],
-                    cluster.id2[bindx],
+                    id1[bindx],
+                    id2[bindx],
                     cluster.kw1[bindx],
                     cluster.kw2[bindx],
                     cluster.kcm[bindx],
-- 
2.43.0


From b52d8cec5882146c061d4869d678bae40aadc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:44 +0000
Subject: [PATCH 70/82] fix: orbits of clusters in radec ignored from_centre

---
 clustertools/analysis/orbits.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index b78b49d..00b08d3 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -72,15 +72,29 @@ def initialize_orbit(cluster, from_centre=False, ro=None, vo=None, zo = None, so
     if solarmotion is None: solarmotion=cluster._solarmotion
 
     if cluster.units == "radec":
+        vxvv = [
+            cluster.ra_gc,
+            cluster.dec_gc,
+            cluster.dist_gc,
+            cluster.pmra_gc,
+            cluster.pmdec_gc,
+            cluster.vlos_gc,
+        ]
+
+        if from_centre:
+            # The sky coordinates of the centre are only known if they have been set
+            centre = [
+                cluster.ra_c,
+                cluster.dec_c,
+                cluster.dist_c,
+                cluster.pmra_c,
+                cluster.pmdec_c,
+                cluster.vlos_c,
+            ]
+            if np.any(centre): vxvv = centre
+
         o = Orbit(
-            [
-                cluster.ra_gc,
-                cluster.dec_gc,
-                cluster.dist_gc,
-                cluster.pmra_gc,
-                cluster.pmdec_gc,
-                cluster.vlos_gc,
-            ],
+            vxvv,
             radec=True,
             ro=ro,
             vo=vo,
-- 
2.43.0


From 45cfce333b43c74a5b89bb4c70b83d9761fdb0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:49 +0000
Subject: [PATCH 71/82] fix: galactocentric paths of clusters in radec were
 turned into angles

---
 clustertools/analysis/orbits.py | 18 ++++++++++--------
 clustertools/tidaltail/tails.py | 14 ++++++++------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index 00b08d3..a1b156f 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -756,12 +756,14 @@ def orbital_path(
         vy = np.array(o.vy(ts))
         vz = np.array(o.vz(ts))
 
-        x=_convert_length(x,'kpckms',cluster)
-        y=_convert_length(y,'kpckms',cluster)
-        z=_convert_length(z,'kpckms',cluster)
-        vx=_convert_velocity(vx,'kpckms',cluster)
-        vy=_convert_velocity(vy,'kpckms',cluster)
-        vz=_convert_velocity(vz,'kpckms',cluster)
+        # There is no galactocentric path in degrees, it stays in kpc and km/s
+        if cluster.units!='radec':
+            x=_convert_length(x,'kpckms',cluster)
+            y=_convert_length(y,'kpckms',cluster)
+            z=_convert_length(z,'kpckms',cluster)
+            vx=_convert_velocity(vx,'kpckms',cluster)
+            vy=_convert_velocity(vy,'kpckms',cluster)
+            vz=_convert_velocity(vz,'kpckms',cluster)
         t=_convert_time(ts,'galpy',cluster)
 
         if plot:
@@ -769,7 +771,7 @@ def orbital_path(
             overplot = kwargs.pop("overplot", False)
             #The orbital path is in galactocentric coordinates
             units0,origin0, rorder0, rorder_origin0 = cluster.units,cluster.origin, cluster.rorder, cluster.rorder_origin
-            if origin0 == 'cluster' or origin0 == 'centre':
+            if origin0 != 'galaxy':
                 cluster.to_galaxy(sortstars=False)
             starplot(cluster,coords='xy',overplot=overplot)
             cluster.return_cluster(units0,origin0, rorder0, rorder_origin0)
@@ -891,7 +893,7 @@ def orbital_path_match(
         #The path was also given in the cluster's own units
         if units0!='amuse' or hasattr(ts,'value_in'):
             ts=_convert_time(ts,units0,cluster)
-            if not skypath:
+            if not skypath and units0!='radec':
                 x,y,z=[_convert_length(val,units0,cluster) for val in (x,y,z)]
                 vx,vy,vz=[_convert_velocity(val,units0,cluster) for val in (vx,vy,vz)]
 
diff --git a/clustertools/tidaltail/tails.py b/clustertools/tidaltail/tails.py
index eaff0e7..90f98aa 100644
--- a/clustertools/tidaltail/tails.py
+++ b/clustertools/tidaltail/tails.py
@@ -261,12 +261,14 @@ def tail_path(
     return_cluster(cluster, units0, origin0, rorder0, rorder_origin0)
 
     ttail=_convert_time(ttail,'kpckms',cluster)
-    xtail=_convert_length(xtail,'kpckms',cluster)
-    ytail=_convert_length(ytail,'kpckms',cluster)
-    ztail=_convert_length(ztail,'kpckms',cluster)
-    vxtail=_convert_velocity(vxtail,'kpckms',cluster)
-    vytail=_convert_velocity(vytail,'kpckms',cluster)
-    vztail=_convert_velocity(vztail,'kpckms',cluster)
+    # There is no galactocentric path in degrees, it stays in kpc and km/s
+    if cluster.units!='radec':
+        xtail=_convert_length(xtail,'kpckms',cluster)
+        ytail=_convert_length(ytail,'kpckms',cluster)
+        ztail=_convert_length(ztail,'kpckms',cluster)
+        vxtail=_convert_velocity(vxtail,'kpckms',cluster)
+        vytail=_convert_velocity(vytail,'kpckms',cluster)
+        vztail=_convert_velocity(vztail,'kpckms',cluster)
 
     if skypath:
         return ttail,ratail,dectail,disttail,pmratail,pmdectail,vlostail
-- 
2.43.0


From bc1522464d0f88ff6fd2f3dc90f2c292cd1fda55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 72/82] fix: Harris clusters failed with current numpy (np.in1d
 is gone)

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 0a87cff..99120a9 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -892,7 +892,7 @@ def _get_harris_cluster(data, gcname, mbar=0.4, **kwargs):
     name = data[:, 0]
     name2 = data[:, 1]
 
-    indx = np.logical_or(np.in1d(name, gcname), np.in1d(name2, gcname))
+    indx = np.logical_or(np.isin(name, gcname), np.isin(name2, gcname))
     i_d = np.argwhere(indx == True).flatten()[0]
     mgc = data[i_d, 2].astype(float)
     rc = data[i_d, 3].astype(float)
-- 
2.43.0


From 6a35c316745d60525f5afc28907d4f96a3ec2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 73/82] fix: named Galactic clusters not in de Boer et al., or
 in mixed case, were not found

---
 clustertools/io/limepydf.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 99120a9..7f741d6 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -759,27 +759,22 @@ def _get_cluster(gcname, source="default", mbar=1., params=False, **kwargs):
 
     gcname = gcname.upper()
 
+    #Names are compared without regard to case, and an alternate name stands for the cluster's primary name
+    hindx = np.char.upper(hname) == gcname
+    if not np.any(hindx):
+        hindx = np.logical_and(np.char.upper(hname2) == gcname, hname2 != "na")
+    if np.any(hindx):
+        gcname = hname[hindx][0]
+
+    dindx = np.char.upper(dname) == gcname.upper()
 
     if (
         source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname in dname:
-        cluster = _get_deBoer_cluster(ddata, gcname, mbar, **kwargs)
+    ) and np.any(dindx):
+        cluster = _get_deBoer_cluster(ddata, dname[dindx][0], mbar, **kwargs)
     elif (
-        source == "default" or "deboer" in source or "deBoer" in source
-    ) and gcname not in dname:
-        if gcname in hname:
-            indx = hname == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname2[i_d], mbar, **kwargs)
-        elif gcname in hname2:
-            indx = hname2 == gcname
-            i_d = np.argwhere(indx == True).flatten()[0]
-            cluster = _get_deBoer_cluster(ddata, hname[i_d], mbar, **kwargs)
-
-
-    elif (source == "default" or "harris" in source or "Harris" in source) and (
-        gcname in hname or gcname in hname2
-    ):
+        source == "default" or "harris" in source or "Harris" in source
+    ) and np.any(hindx):
         cluster = _get_harris_cluster(hdata, gcname, mbar, **kwargs)
     else:
         print('No match: ',source,gcname, gcname in dname, gcname in hname, gcname in hname2)
-- 
2.43.0


From 678abdb3a3bd4b75f7ae9d90496929cf96c07742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 74/82] fix: N was ignored for clusters from de Boer et al.

---
 clustertools/io/limepydf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clustertools/io/limepydf.py b/clustertools/io/limepydf.py
index 7f741d6..9054ff0 100644
--- a/clustertools/io/limepydf.py
+++ b/clustertools/io/limepydf.py
@@ -834,7 +834,7 @@ def _get_deBoer_cluster(data, gcname, mbar=0.4, **kwargs):
         g_lime = data[i_d, 3].astype(float)
         rt_lime = data[i_d, 5].astype(float)
         M_lime = data[i_d, 7].astype(float)
-        N = int(M_lime / mbar)
+        N = int(kwargs.get("N", M_lime / mbar))
 
         cluster = _sample_limepy(g=g_lime, phi0=W_lime, M=M_lime, rt=rt_lime, N=N)
 
-- 
2.43.0


From a8d15be73343dc9043fc7cbad29401e99b81c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 75/82] fix: v_prof and v2_prof ignored the documented
 component names

---
 clustertools/analysis/profiles.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 144ffe1..c856645 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -1183,13 +1183,13 @@ def v_prof(
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
             vz = cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t>$"
         elif coord=='x' or coord=='vx':
@@ -1411,18 +1411,29 @@ def v2_prof(
             r, phi, theta, vr, vp, vt = sphere_coords(cluster)
             vz = cluster.vz
 
-        if coord =='r':
+        if coord =='r' or coord=='vr':
             v=vr
             ylabel=r"$<v_r^2>$"
-        elif coord=='phi':
+        elif coord=='phi' or coord=='vp' or coord=='vphi':
             v=vp
             ylabel=r"$<v_p^2>$"
-        elif coord=='theta':
+        elif coord=='theta' or coord=='vt' or coord=='vtheta':
             v=vt
             ylabel=r"$<v_t^2>$"
-        elif coord=='z':
+        elif coord=='x' or coord=='vx':
+            v=cluster.vx
+            ylabel=r"$<v_x^2>$"
+        elif coord=='y' or coord=='vy':
+            v=cluster.vy
+            ylabel=r"$<v_y^2>$"
+        elif coord=='z' or coord=='vz':
             v=vz
             ylabel=r"$<v_z^2>$"
+        elif coord=='v':
+            if projected:
+                v=cluster.vpro
+            else:
+                v=cluster.v
     else:
         if projected:
             ylabel=r"$<v_{pro}^2>$"
-- 
2.43.0


From ab655a65a945e227bb3bcb10c323d84d0eb8acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:27 +0000
Subject: [PATCH 76/82] fix: velocity profiles with coord='v' could not be
 drawn

---
 clustertools/analysis/profiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index c856645..13fe1a8 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -775,8 +775,10 @@ def sigv_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$\sigma_{v_{pro}}$"
             else:
                 v=cluster.v
+                ylabel=r"$\sigma_v$"
     else:
         if projected:
             ylabel=r"$\sigma_{v_{pro}}$"
@@ -1204,8 +1206,10 @@ def v_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$<v_{pro}>$"
             else:
                 v=cluster.v
+                ylabel=r"$<v>$"
     else:
         if projected:
             ylabel=r"$<v_{pro}>$"
@@ -1432,8 +1436,10 @@ def v2_prof(
         elif coord=='v':
             if projected:
                 v=cluster.vpro
+                ylabel=r"$<v_{pro}^2>$"
             else:
                 v=cluster.v
+                ylabel=r"$<v^2>$"
     else:
         if projected:
             ylabel=r"$<v_{pro}^2>$"
-- 
2.43.0


From 93121a9d82568cc2d6b6ddab867a7215bfc4fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 77/82] fix: figures named the wrong mass and velocity units

---
 clustertools/analysis/profiles.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index 13fe1a8..e7ea8f2 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -166,12 +166,15 @@ def rho_prof(
                 yunits = " Msun/pc^2"
             else:
                 yunits = " Msun/pc^3"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units== "WDunits":
+        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
             xunits = " (kpc)"
             if projected:
                 yunits = " Msun/kpc^2"
             else:
                 yunits = " Msun/kpc^3"
+        elif cluster.units == "WDunits":
+            xunits = " (kpc)"
+            yunits = " (WDUNITS)"
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
@@ -350,9 +353,12 @@ def m_prof(
         elif cluster.units == "pckms" or cluster.units == "pcmyr":
             xunits = " (pc)"
             yunits = " Msun"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units== "WDunits":
+        elif cluster.units == "kpckms" or cluster.units == "kpcgyr":
             xunits = " (kpc)"
             yunits = " Msun"
+        elif cluster.units == "WDunits":
+            xunits = " (kpc)"
+            yunits = " (WDUNITS)"
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
             yunits = " (GALPY)"
@@ -2036,12 +2042,18 @@ def vcirc_prof(
         if cluster.units == "nbody":
             xunits = " (NBODY)"
             yunits = " (NBODY)"
-        elif cluster.units == "pckms" or cluster.units == "pcmyr":
+        elif cluster.units == "pckms":
             xunits = " (pc)"
             yunits = " km/s"
-        elif cluster.units == "kpckms" or cluster.units == "kpcgyr" or cluster.units== "WDunits":
+        elif cluster.units == "pcmyr":
+            xunits = " (pc)"
+            yunits = " pc/Myr"
+        elif cluster.units == "kpckms":
             xunits = " (kpc)"
             yunits = " km/s"
+        elif cluster.units == "kpcgyr" or cluster.units== "WDunits":
+            xunits = " (kpc)"
+            yunits = " kpc/Gyr"
 
         elif cluster.units == "galpy":
             xunits = " (GALPY)"
-- 
2.43.0


From dd34bfa60c8549d54303f18bb30eaee761b00839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:59 +0000
Subject: [PATCH 78/82] fix: figures of normalized profiles named a unit of
 length

---
 clustertools/analysis/profiles.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/clustertools/analysis/profiles.py b/clustertools/analysis/profiles.py
index e7ea8f2..c316ad4 100644
--- a/clustertools/analysis/profiles.py
+++ b/clustertools/analysis/profiles.py
@@ -183,6 +183,9 @@ def rho_prof(
             xunits = ""
             yunits = ""
 
+        if normalize:
+            xunits = r"/ r_m"
+
         if projected:
             xlabel=r"$R \ %s$" % xunits
             ylabel=r"$\Sigma \ %s$" % yunits
@@ -366,6 +369,9 @@ def m_prof(
             xunits = ""
             yunits = ""
 
+        if normalize:
+            xunits = r"/ r_m"
+
         x, y, n = rprof, mprof, nprof
 
         _lplot(
@@ -2064,9 +2070,7 @@ def vcirc_prof(
             yunits = ""
 
         if normalize:
-            xlabel=r"$\ln(r/r_m)$"
-        else:
-            xlabel=r"$\ln(r)$"
+            xunits = r"/ r_m"
 
         x, y = rprof, vcprof
         _lplot(
-- 
2.43.0


From 880ad09bc4796f781538e1d92849c4b94a735c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:05 +0000
Subject: [PATCH 79/82] fix: sub_cluster misplaced the centre when resetting it

The offset of the centre was lost in origin 'centre', as were the sky
coordinates of the orbit, and nothing was reset in origin 'sky'.
---
 clustertools/cluster/cluster.py | 72 ++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index ca6e5a4..23d50b1 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -4293,48 +4293,48 @@ def sub_cluster(
             subcluster.eps=cluster.eps[indx]
 
 
-        if reset_centre:
-            subcluster.add_orbit(
-                cluster.xgc,
-                cluster.ygc,
-                cluster.zgc,
-                cluster.vxgc,
-                cluster.vygc,
-                cluster.vzgc,
-            )
+        subcluster.add_orbit(
+            cluster.xgc,
+            cluster.ygc,
+            cluster.zgc,
+            cluster.vxgc,
+            cluster.vygc,
+            cluster.vzgc,
+        )
+        subcluster.xc, subcluster.yc, subcluster.zc = (
+            cluster.xc,
+            cluster.yc,
+            cluster.zc,
+        )
+        subcluster.vxc, subcluster.vyc, subcluster.vzc = (
+            cluster.vxc,
+            cluster.vyc,
+            cluster.vzc,
+        )
+
+        subcluster.ra_gc, subcluster.dec_gc, subcluster.dist_gc = cluster.ra_gc, cluster.dec_gc, cluster.dist_gc
+        subcluster.pmra_gc, subcluster.pmdec_gc, subcluster.vlos_gc = (
+            cluster.pmra_gc,
+            cluster.pmdec_gc,
+            cluster.vlos_gc,
+        )
 
-            if cluster.origin=='centre' or cluster.origin=='cluster':
+        if reset_centre:
+            if subcluster.origin=='centre':
+                # The centre of the subcluster is measured in the frame of the cluster
+                subcluster.to_cluster(sortstars=False)
                 subcluster.find_centre(0.0, 0.0, 0.0, reset_centre=reset_centre)
+                subcluster.to_centre(sortstars=sortstars)
+            elif subcluster.origin=='cluster':
+                subcluster.find_centre(0.0, 0.0, 0.0, reset_centre=reset_centre)
+            elif subcluster.origin=='sky':
+                subcluster.to_galaxy(sortstars=False)
+                subcluster.find_centre(reset_centre=reset_centre)
+                subcluster.to_sky(sortstars=sortstars)
             else:
                 subcluster.find_centre(reset_centre=reset_centre)
 
         else:
-            subcluster.add_orbit(
-                cluster.xgc,
-                cluster.ygc,
-                cluster.zgc,
-                cluster.vxgc,
-                cluster.vygc,
-                cluster.vzgc,
-            )
-            subcluster.xc, subcluster.yc, subcluster.zc = (
-                cluster.xc,
-                cluster.yc,
-                cluster.zc,
-            )
-            subcluster.vxc, subcluster.vyc, subcluster.vzc = (
-                cluster.vxc,
-                cluster.vyc,
-                cluster.vzc,
-            )
-
-            subcluster.ra_gc, subcluster.dec_gc, subcluster.dist_gc = cluster.ra_gc, cluster.dec_gc, cluster.dist_gc
-            subcluster.pmra_gc, subcluster.pmdec_gc, subcluster.vlos_gc = (
-                cluster.pmra_gc,
-                cluster.pmdec_gc,
-                cluster.vlos_gc,
-            )
-
             subcluster.ra_c, subcluster.dec_c, subcluster.dist_c = cluster.ra_c, cluster.dec_c, cluster.dist_c
             subcluster.pmra_c, subcluster.pmdec_c, subcluster.vlos_c = (
                 cluster.pmra_c,
-- 
2.43.0


From 8c5508fd514d449a66ca80fa183fa9879b0dbf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:46 +0000
Subject: [PATCH 80/82] fix: a time given as an array stays as it was

orbital_path and the orbit interpolations converted the final time in place,
so a zero-dimensional array passed as tfinal was left in another unit.
---
 clustertools/analysis/orbits.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/clustertools/analysis/orbits.py b/clustertools/analysis/orbits.py
index a1b156f..6436b18 100644
--- a/clustertools/analysis/orbits.py
+++ b/clustertools/analysis/orbits.py
@@ -252,13 +252,13 @@ def _integrate_orbit(
     if tfinal is None:
         tfinal=12./conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
-        tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
         tfinal=tfinal.value_in(u.Gyr)/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
+        tfinal=tfinal/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-        tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal*((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     ts = np.linspace(0, tfinal, nt)
     #There is nothing to integrate when the final time is now
@@ -316,13 +316,13 @@ def _integrate_orbits(
     if tfinal is None:
         tfinal=12./conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
-        tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
         tfinal=tfinal.value_in(u.Gyr)/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
+        tfinal=tfinal/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-        tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal*((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     os = initialize_orbits(cluster, ro=ro,vo=vo, zo=zo, solarmotion=solarmotion)
     ts = np.linspace(0, tfinal, nt)
@@ -680,13 +680,13 @@ def orbital_path(
     if tfinal is None:
         tfinal=0.1/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='pckms' or cluster.units=='pcmyr':
-        tfinal/=(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='amuse':
         tfinal=tfinal.value_in(u.Myr)/(1000.*conversion.time_in_Gyr(ro=ro, vo=vo))
     elif cluster.units=='kpckms' or cluster.units=='radec' or cluster.units=='kpcgyr' or cluster.units=='WDunits':
-        tfinal/=conversion.time_in_Gyr(ro=ro, vo=vo)
+        tfinal=tfinal/conversion.time_in_Gyr(ro=ro, vo=vo)
     elif cluster.units=='nbody':
-        tfinal*=((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
+        tfinal=tfinal*((cluster.tbar/1000.)/conversion.time_in_Gyr(ro=ro, vo=vo))
 
     o = initialize_orbit(cluster, from_centre=from_centre, ro=ro,vo=vo,zo=zo,solarmotion=solarmotion)
 
-- 
2.43.0


From d4e18a179c54c5594887db304969be94454cf109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:45 +0000
Subject: [PATCH 81/82] fix: the projected half-mass radius sets the N-body
 scale when asked for

---
 clustertools/cluster/operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clustertools/cluster/operations.py b/clustertools/cluster/operations.py
index 21ba6e1..6fce88f 100644
--- a/clustertools/cluster/operations.py
+++ b/clustertools/cluster/operations.py
@@ -1442,6 +1442,10 @@ def reset_nbody_scale(cluster, mass=True, radii=True, rvirial=True, projected=Fa
                 plot=plot,**kwargs)
 
             rbar=cluster.rv
+        elif projected:
+            rproorder = np.argsort(cluster.rpro)
+            msum = np.cumsum(cluster.m[rproorder])
+            rbar = 4.0 * cluster.rpro[rproorder[msum >= 0.5 * np.sum(cluster.m)][0]] / 3.0
         else:
             rbar = 4.0 * cluster.rm / 3.0
     else:
-- 
2.43.0


From 3ca879223e097aea364d5d16eab19876821f566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:49 +0000
Subject: [PATCH 82/82] fix: a binary given as plain numbers could not be added

---
 clustertools/cluster/cluster.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/clustertools/cluster/cluster.py b/clustertools/cluster/cluster.py
index 23d50b1..785cf05 100644
--- a/clustertools/cluster/cluster.py
+++ b/clustertools/cluster/cluster.py
@@ -726,10 +726,7 @@ class StarCluster(object):
 
         """
 
-        if isinstance(xb1,float):
-            self.nb+=1
-        else:
-            self.nb+=len(xb1)
+        self.nb+=np.size(xb1)
 
         self.xb1=np.append(xb1,self.xb1)
         self.yb1=np.append(yb1,self.yb1)
@@ -774,7 +771,7 @@ class StarCluster(object):
                 else:
                     idstart=0
 
-                ids=idstart+np.arange(0,len(xcom),dtype=int)*2
+                ids=idstart+np.arange(0,np.size(xcom),dtype=int)*2
             else:
                 ids=id1
                 self.id1=np.append(id1,self.id1)
@@ -789,7 +786,7 @@ class StarCluster(object):
             if m01 is not None and m02 is not None:
                 self.m0=np.append(m01+m02,self.m0)
             else:
-                self.m0=np.append(np.zeros(len(xcom)),self.m0)
+                self.m0=np.append(np.zeros(np.size(xcom)),self.m0)
 
             if m01 is not None:
                 self.m01=np.append(m01,self.m01)
@@ -799,21 +796,21 @@ class StarCluster(object):
             if npop1 is not None and npop2 is not None:
                 npopb=np.maximum(npop1,npop2)
             else:
-                npopb=np.ones(len(xcom))
+                npopb=np.ones(np.size(xcom))
 
             self.npop=np.append(npopb,self.npop).astype(int)
 
             if npop1 is None:
-                self.npop1=np.append(np.ones(len(xcom)),self.npop1)
+                self.npop1=np.append(np.ones(np.size(xcom)),self.npop1)
             elif isinstance(npop1,float):
-                self.npop1=np.append(np.ones(len(xcom))*npop1,self.npop1)
+                self.npop1=np.append(np.ones(np.size(xcom))*npop1,self.npop1)
             else:
                 self.npop1=np.append(npop1,self.npop1)
 
             if npop2 is None:
-                self.npop2=np.append(np.ones(len(xcom)),self.npop2)
+                self.npop2=np.append(np.ones(np.size(xcom)),self.npop2)
             elif isinstance(npop2,float):
-                self.npop2=np.append(np.ones(len(xcom))*npop2,self.npop2)
+                self.npop2=np.append(np.ones(np.size(xcom))*npop2,self.npop2)
             else:
                 self.npop2=np.append(npop2,self.npop2)
 
-- 
2.43.0

