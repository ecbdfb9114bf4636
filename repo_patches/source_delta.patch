From 1f29b8db208e2c53d2f8b72569395f0e4fd8acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 01/79] fix: keep deposits thicker than the top bed layer in
 the sediment budget

---
 aeolis/bed.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index a71214d..388165e 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -267,6 +267,10 @@ def update(s, p):
     # reshape mass matrix
     m = s['mass'].reshape((-1,nl,nf))
 
+    # determine net deposition that changes the bed level, also if part of it
+    # is not exchanged between layers
+    dm_net = dm[:,0].copy()
+
     # negative mass may occur in case of deposition due to numerics,
     # which should be prevented
     m, dm, pickup = prevent_negative_mass(m, dm, pickup)
@@ -310,7 +314,7 @@ def update(s, p):
     # update bathy
     if p['process_bedupdate']:
 
-        dz = dm[:, 0].reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
+        dz = dm_net.reshape((ny + 1, nx + 1)) / (p['rhog'] * (1. - p['porosity']))
         # s['dzb'] = dm[:, 0].reshape((ny + 1, nx + 1))
         s['dzb'] = dz.copy()
 
@@ -436,16 +440,17 @@ def prevent_negative_mass(m, dm, pickup):
             # fill current layer with deposited sediment
             m[ix,i,:] = mx[ix,:].repeat(nf, axis=1) * d[ix,:]
 
-            # remove deposited sediment from pickup
-            pickup[ix,:] -= m[ix,i,:]
+            # remove deposited sediment from pickup (deposition is negative pickup)
+            pickup[ix,:] += m[ix,i,:]
 
         # discard any remaining deposits at locations where all layers
         # are filled with fresh deposits
-        ix = (dm[:,:1] > mx).flatten()
+        ix = (n >= nl).flatten()
         if np.any(ix):
             pickup[ix,:] = 0.
 
         # recompute sediment exchange mass
+        ix = (n > 0).flatten()
         dm[ix,:] = -np.sum(pickup[ix,:], axis=-1, keepdims=True).repeat(nf, axis=-1)
 
     return m, dm, pickup
-- 
2.43.0


From bd2552baf259786877e802de83a46b194b422aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 02/79] fix: allow stepping the model runner before any output
 is written

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0759995..e9219d8 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2399,6 +2399,7 @@ class AeoLiSRunner(AeoLiS):
 
         self.n = 0 # time step counter
         self.o = {} # output stats
+        self.clear = False # clear output stats before next time step
 
         self.changed = False
         self.cwd = None
-- 
2.43.0


From 46161dc12900193499900ecca6c02fb49373098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 03/79] fix: separate mass and pickup in the default output
 variables

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index a1c0c33..d74ae45 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -217,7 +217,7 @@ DEFAULT_CONFIG = {
     'output_vars'                   : ['zb', 'zs',
                                        'Ct', 'Cu',
                                        'uw', 'udir', 
-                                       'uth', 'mass'
+                                       'uth', 'mass',
                                        'pickup', 'w'],    # Names of spatial grids to be included in output
     'output_types'                  : [],                 # Names of statistical parameters to be included in output (avg, sum, var, min or max)
     'external_vars'                 : [],                 # Names of variables that are overwritten by an external (coupling) model, i.e. CoCoNuT
-- 
2.43.0


From 0cabb49d21f6014e4d58f915ff585ebfa4b3ada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 04/79] fix: write and read restart files as binary pickles
 including the time step

---
 aeolis/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index e9219d8..614bf4e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -93,6 +93,13 @@ class ModelState(dict):
     model state variable are ignored.
     """
 
+    def __new__(cls, *args, **kwargs):
+        # items are restored before attributes when unpickling
+        obj = super(ModelState, cls).__new__(cls)
+        obj.ismutable = set()
+        return obj
+
+
     def __init__(self, *args, **kwargs) -> None:
         """Initialize dictionary for model states"""
         self.ismutable = set()
@@ -2850,10 +2857,11 @@ class AeoLiSRunner(AeoLiS):
         if restartfile:
             if os.path.exists(restartfile):
                 # Load model state
-                with open(restartfile, 'r') as fp:
+                with open(restartfile, 'rb') as fp:
                     state = pickle.load(fp)
 
                     self.t = state['t']
+                    self.dt = state['dt']
                     self.p = state['p']
                     self.s = state['s']
                     self.l = state['l']
@@ -2871,8 +2879,9 @@ class AeoLiSRunner(AeoLiS):
         '''Dumps model state to restart file'''
 
         restartfile = '%s.r%010d' % (os.path.splitext(self.p['output_file'])[0], int(self.t))
-        with open(restartfile, 'w') as fp:
+        with open(restartfile, 'wb') as fp:
             pickle.dump({'t':self.t,
+                         'dt':self.dt,
                          'p':self.p,
                          's':self.s,
                          'l':self.l,
-- 
2.43.0


From 9385f97a8e88326740e7c4f1b9bdf7c6941f16b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 05/79] fix: restore the grid orientation if a time step is
 skipped

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 614bf4e..954639f 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -298,6 +298,8 @@ class AeoLiS(IBmi):
         # determine optimal time step
         self.dt_prev = self.dt
         if not self.set_timestep(dt):
+            # no model execution, restore original grid orientation
+            self.s = self.grid_rotate(-self.p['alpha'])
             return
 
         # interpolate hydrodynamic time series
-- 
2.43.0


From 039941e1d2c1ff04d52ea64f753b8c10dfaf0d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 06/79] fix: advance time if there is no wind and the numerical
 scheme is explicit

---
 aeolis/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 954639f..20a79f5 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -635,6 +635,7 @@ class AeoLiS(IBmi):
                     self.dt = np.minimum(self.dt, self.p['CFL'] / dtref)
                 else:
                     self.dt = np.minimum(self.dt, 1.)
+                    self.t += self.dt * self.p['accfac']
                     return False
            
         if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
@@ -2407,6 +2408,7 @@ class AeoLiSRunner(AeoLiS):
         self.trestart = 0.
 
         self.n = 0 # time step counter
+        self.dt_array = [] # time steps since last progress report
         self.o = {} # output stats
         self.clear = False # clear output stats before next time step
 
-- 
2.43.0


From 2a9525aab517a56e6d9e38cf33a8f3cf01ae1cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 07/79] fix: limit the time step by the magnitude of the bed
 level change

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 20a79f5..7877298 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -638,9 +638,9 @@ class AeoLiS(IBmi):
                     self.t += self.dt * self.p['accfac']
                     return False
            
-        if self.p['max_bedlevel_change'] != 999. and np.max(self.s['dzb']) != 0. and self.dt_prev != 0.:
+        if self.p['max_bedlevel_change'] != 999. and np.max(np.abs(self.s['dzb'])) != 0. and self.dt_prev > 0.:
             
-            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(self.s['dzb'])
+            dt_zb = self.dt_prev * self.p['max_bedlevel_change'] / np.max(np.abs(self.s['dzb']))
             self.dt = np.minimum(self.dt, dt_zb)
             
         self.p['dt_opt'] = self.dt
-- 
2.43.0


From d96d8d212f5b2eb314256874fa848772267340e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 08/79] fix: support variable names with underscores in the
 model runner

---
 aeolis/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 7877298..60a3edb 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2639,9 +2639,9 @@ class AeoLiSRunner(AeoLiS):
         self.clear = clear
 
         if '_' in var:
-            var, stat = var.split('_')
-            if var in self.o:
-                return self.get_statistic(var, stat)
+            var0, stat = var.rsplit('_', 1)
+            if var0 in self.o and stat in ['avg', 'sum', 'var', 'min', 'max']:
+                return self.get_statistic(var0, stat)
 
         # TODO: delete in future releases
         if '.' in var:
@@ -2715,8 +2715,8 @@ class AeoLiSRunner(AeoLiS):
         # determine unique combinations of variables and types
         self.p['_output_vars'] = {}
         for var in self.p['output_vars']:
-            if '_' in var:
-                var0, ext = var.split('_')
+            if '_' in var and var not in self.s:
+                var0, ext = var.rsplit('_', 1)
             # TODO: delete in future release
             elif '.' in var:
                 warnings.warn('The use of "%s" is deprecated, use '
-- 
2.43.0


From ed25a4844529aa0a8930523478c14253dd14fd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 09/79] fix: respect immutable model state variables in
 ModelState.update

---
 aeolis/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 60a3edb..caac102 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -116,6 +116,13 @@ class ModelState(dict):
             self.set_mutable(k)
 
 
+    def update(self, *args, **kwargs) -> None:
+        """sets multiple new and existing mutable model variables"""
+
+        for k, v in dict(*args, **kwargs).items():
+            self[k] = v
+
+
     def set_mutable(self, k:str) -> None:
         """Adds mutable variable to the model state"""
         self.ismutable.add(k)
-- 
2.43.0


From 9a83f5097479d5f3cacab731a099af0122fb31c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 10/79] fix: support scalar model state variables in rank,
 shape and output

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index caac102..540245a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -489,7 +489,7 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            return len(self.s[var].shape)
+            return np.ndim(self.s[var])
         else:
             return -1
 
@@ -508,7 +508,7 @@ class AeoLiS(IBmi):
         '''
 
         if var in self.s:
-            return self.s[var].shape
+            return np.shape(self.s[var])
         else:
             return -1
 
@@ -2777,7 +2777,7 @@ class AeoLiSRunner(AeoLiS):
         '''
 
         for k, exts in self.p['_output_vars'].items():
-            v = self.get_var(k, clear=False).copy()
+            v = np.array(self.get_var(k, clear=False))
             if 'min' in exts:
                 self.o[k]['min'] = np.minimum(self.o[k]['min'], v)
             if 'max' in exts:
@@ -2810,7 +2810,7 @@ class AeoLiSRunner(AeoLiS):
             for k, exts in self.p['_output_vars'].items():
                 for ext in exts:
                     if ext is None:
-                        variables[k] = self.get_var(k, clear=False).copy()
+                        variables[k] = np.array(self.get_var(k, clear=False))
                     else:
                         variables['%s_%s' % (k, ext)] = self.get_statistic(k, ext)
 
-- 
2.43.0


From 328947a7866619ed8490cbca30ad163da14fc521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 11/79] fix: write configuration files that read back to the
 same values

---
 aeolis/inout.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index cfbdcc8..c160bbe 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -152,7 +152,7 @@ def write_configfile(configfile, p=None):
     if p is None:
         p = DEFAULT_CONFIG.copy()
 
-    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.iterkeys()])
+    fmt = '%%%ds = %%s\n' % np.max([len(k) for k in p.keys()])
         
     with open(configfile, 'w') as fp:
 
@@ -162,14 +162,27 @@ def write_configfile(configfile, p=None):
         fp.write('%s\n' % ('%' * 70))
         fp.write('\n')
         
-        for k, v in sorted(p.iteritems()):
+        for k, v in sorted(p.items()):
             if k.endswith('_file') and isiterable(v):
                 fname = '%s.txt' % k.replace('_file', '')
                 backup(fname)
                 np.savetxt(fname, v)
                 fp.write(fmt % (k, fname))
+            elif isiterable(v):
+                # empty lists cannot be represented and are left to the defaults
+                if len(v) > 0:
+                    fp.write(fmt % (k, ' '.join([format_value(x) for x in v])))
             else:
-                fp.write(fmt % (k, print_value(v, fill='')))
+                fp.write(fmt % (k, format_value(v)))
+
+
+def format_value(val):
+    '''Formats a value such that it is casted back to the same value by parse_value'''
+
+    if isinstance(val, float):
+        return repr(float(val))
+    else:
+        return print_value(val, fill='')
 
 
 def check_configuration(p):
@@ -279,7 +292,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return val == 'T'
     elif re.match('^-?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+$', val):
+    elif re.match('^-?[\d\.]+([eE][-+]?\d+)?$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From 4317713ed6c9cf32ded0c28a116026c4c9956e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 12/79] fix: create the default model without modifying the
 default configuration

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 540245a..631fe28 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2429,13 +2429,13 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG
+            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
                                ny         = 0,
                                xgrid_file = np.arange(0.,100.,1.),
-                               bed_file   = np.linspace(-5.,5.,100.),
+                               bed_file   = np.linspace(-5.,5.,100),
                                wind_file  = np.asarray([[0.,10.,0.],
                                                         [3601.,10.,0.]])))
         else:
-- 
2.43.0


From 248df5a28584b2fe74353eebcb8175c414885d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 13/79] fix: use column spacing in s-direction and row spacing
 in n-direction

---
 aeolis/gridparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index a3ae3fa..185245a 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -200,8 +200,8 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
         s['ds'][:, 1:] = np.diff(s['x'], axis=1)
         s['ds'][:, 0] = s['ds'][:, 1]
     else:
-        s['dn'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
-        s['ds'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
+        s['ds'][:,:] = ((yr[0,1]-yr[0,0])**2.+(xr[0,1]-xr[0,0])**2.)**0.5
+        s['dn'][:,:] = ((xr[1,0]-xr[0,0])**2.+(yr[1,0]-yr[0,0])**2.)**0.5
          
     # compute cell areas
     s['dsdn'][:,:] = s['ds'] * s['dn']
-- 
2.43.0


From b03f3cfa557a3d876ce9f56360624b5de3568246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 14/79] fix: align grids that are oriented between 90 and 180
 degrees

---
 aeolis/gridparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/gridparams.py b/aeolis/gridparams.py
index 185245a..91a9b55 100644
--- a/aeolis/gridparams.py
+++ b/aeolis/gridparams.py
@@ -188,7 +188,7 @@ def initialize(s:Dict, p:Dict) -> Tuple[Dict, Dict]:
     else:
         p['alpha'] = np.rad2deg(np.arctan(dy/dx))
 
-    if dx <= 0 and dy <= 0:
+    if dx < 0 or (dx == 0 and dy <= 0):
         p['alpha'] += 180.
         
     # Rotate grids to allign with horizontal
-- 
2.43.0


From 57c38fac8346bec6c47ea0b73a34fd7682a3b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 15/79] fix: let the onshore boundary condition depend on its
 own setting only

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 631fe28..507f761 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1256,7 +1256,7 @@ class AeoLiS(IBmi):
             else:
                 logger.log_and_raise('Unknown offshore boundary condition [%s]' % self.p['boundary_offshore'], exc=ValueError)
 
-            if (p['boundary_onshore'] == 'flux') | (p['boundary_offshore'] == 'noflux'):                              
+            if (p['boundary_onshore'] == 'flux') | (p['boundary_onshore'] == 'noflux'):                              
                 Am2[:,-1] = 0.
                 Am1[:,-1] = 0.            
             elif p['boundary_onshore'] == 'constant':                              
-- 
2.43.0


From 77a892785fa770da4f5658c76e55650f9a35a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 16/79] fix: use the coefficients of the cell itself for
 lateral transport in negative direction

---
 aeolis/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 507f761..cda197a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -928,14 +928,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1299,14 +1299,14 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am2.flatten()[2:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-2,-1,0,1,2,j,j*p['ny']), format='csr')
             else:
@@ -1633,12 +1633,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
@@ -2042,12 +2042,12 @@ class AeoLiS(IBmi):
             # construct sparse matrix
             if p['ny'] > 0:
                 j = p['nx']+1
-                A = scipy.sparse.diags((Apx.flatten()[:j],
+                A = scipy.sparse.diags((Apx.flatten()[-j:],
                                         Amx.flatten()[j:],
                                         Am1.flatten()[1:],
                                         A0.flatten(),
                                         Ap1.flatten()[:-1],
-                                        Apx.flatten()[j:],
+                                        Apx.flatten()[:-j],
                                         Amx.flatten()[:j]),
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
-- 
2.43.0


From 5ce3ee52c9656cb44907e66aed13ee6f1f41bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 17/79] fix: close the lateral circular boundary in the steady
 state solver

---
 aeolis/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index cda197a..2ede173 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1676,6 +1676,7 @@ class AeoLiS(IBmi):
                 if p['boundary_lateral'] == 'circular':
                     Ctxfn_i[0,:] = ixfn[0,:] * Ct[-1,:,i] \
                                     + (1. - ixfn[0,:]) *  Ct[0,:,i] 
+                    Ctxfn_i[-1,:] = Ctxfn_i[0,:]
                 
                 # calculate pickup
                 D_i = s['dsdn'] / Ts * Ct[:,:,i]                                          
-- 
2.43.0


From 8a12bb3e385b832b4f20718365845a8230cb73d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 18/79] fix: use the velocity of the opposite boundary with
 circular lateral boundaries

---
 aeolis/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 2ede173..57ad65e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -809,6 +809,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
@@ -1180,6 +1184,10 @@ class AeoLiS(IBmi):
             
             us_min[:,-1]  = s['us'][:,-1,i]
             un_min[-1,:]  = s['un'][-1,:,i]
+
+            if p['boundary_lateral'] == 'circular':
+                un_plus[0,:] = s['un'][-1,:,i]
+                un_min[-1,:] = s['un'][0,:,i]
             
             
             # define matrix coefficients to solve linear system of equations        
-- 
2.43.0


From 00330fb4b4d060174d6acf13d48dc82e5d6a2a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 19/79] fix: start the steady state solver with multiple grain
 fractions

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 57ad65e..0feccf9 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -755,7 +755,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            if p['grain_dist'] != None:
+            if p['grain_dist'] is not None:
                 w = p['grain_dist'].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
-- 
2.43.0


From 64b176689438e3606e8ce94563f00dbbc6aa1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 20/79] fix: keep concentrations finite if there is no
 transport velocity at a constant flux boundary

---
 aeolis/model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 0feccf9..aed297f 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -984,9 +984,11 @@ class AeoLiS(IBmi):
                     y_i[:,-1] = p['onshore_flux'] * s['Cu0'][:,-1,i] 
                     
                 if p['boundary_offshore'] == 'constant':
-                    y_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] 
+                    y_i[:,0] = np.divide(p['constant_offshore_flux'], s['u'][:,0,i],
+                                          out=np.zeros(y_i[:,0].shape), where=s['u'][:,0,i] != 0.) 
                 if p['boundary_onshore'] == 'constant':
-                    y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
+                    y_i[:,-1] = np.divide(p['constant_onshore_flux'], s['u'][:,-1,i],
+                                          out=np.zeros(y_i[:,-1].shape), where=s['u'][:,-1,i] != 0.)
 
                 # solve system with current weights
                 Ct_i = scipy.sparse.linalg.spsolve(A, y_i.flatten())
@@ -1378,9 +1380,11 @@ class AeoLiS(IBmi):
                     y_i[:,-1] = p['onshore_flux'] * s['Cu0'][:,-1,i] 
                     
                 if p['boundary_offshore'] == 'constant':
-                    y_i[:,0] = p['constant_offshore_flux'] / s['u'][:,0,i] 
+                    y_i[:,0] = np.divide(p['constant_offshore_flux'], s['u'][:,0,i],
+                                          out=np.zeros(y_i[:,0].shape), where=s['u'][:,0,i] != 0.) 
                 if p['boundary_onshore'] == 'constant':
-                    y_i[:,-1] = p['constant_onshore_flux'] / s['u'][:,-1,i]
+                    y_i[:,-1] = np.divide(p['constant_onshore_flux'], s['u'][:,-1,i],
+                                          out=np.zeros(y_i[:,-1].shape), where=s['u'][:,-1,i] != 0.)
 
                 # solve system with current weights
                 Ct_i = scipy.sparse.linalg.spsolve(A, y_i.flatten())
-- 
2.43.0


From 45f680da047ffe3a03b3269069cd22d2e72b9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 21/79] fix: recompute the undisturbed equilibrium
 concentration every time step

---
 aeolis/transport.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 84a43d8..fc9e196 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -312,6 +312,7 @@ def equilibrium(s, p):
         
         s['Cu']  = np.zeros(uth.shape)
         s['Cuf'] = np.zeros(uth.shape)
+        s['Cu0'] = np.zeros(uth.shape)
     
                 
         ix = (ustar != 0.)*(u != 0.)
-- 
2.43.0


From 6b339663fdde629ae0eee6e5fe4c731a725f6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 22/79] fix: support two-dimensional grids in the grain size
 dependent Bagnold formulation

---
 aeolis/transport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index fc9e196..03dd9a6 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -325,7 +325,7 @@ def equilibrium(s, p):
             
         elif p['method_transport'].lower() == 'bagnold_gs':
             Dref = 0.000250
-            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1)
+            d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1).repeat(p['ny']+1, axis=0)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
             
-- 
2.43.0


From 6f78b9c025169210453b8bbfd177b81e51272404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 23/79] fix: keep concentrations non-negative and finite when
 negative concentrations are removed

---
 aeolis/model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index aed297f..00a313c 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -1006,7 +1006,8 @@ class AeoLiS(IBmi):
                                               coords=np.argwhere(ix.reshape(y_i.shape)),
                                               **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -1403,7 +1404,7 @@ class AeoLiS(IBmi):
                                               **logprops))
 
                     if Ct_i[~ix].sum() != 0:
-                        Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     else:
                         Ct_i[~ix] = 0
 
@@ -1785,7 +1786,8 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
@@ -2202,7 +2204,8 @@ class AeoLiS(IBmi):
 #                                           minvalue=Ct_i.min(),
 #                                           **logprops))
 
-                    Ct_i[~ix] *= 1. + Ct_i[ix].sum() / Ct_i[~ix].sum()
+                    if Ct_i[~ix].sum() != 0:
+                        Ct_i[~ix] *= np.maximum(0., 1. + Ct_i[ix].sum() / Ct_i[~ix].sum())
                     Ct_i[ix] = 0.
 
                 # determine pickup and deficit for current fraction
-- 
2.43.0


From 5eb16d12d5a39489d0e0a7fdf7abbfc732c0f722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 24/79] fix: do not lose sediment sideways in one-dimensional
 simulations with oblique wind

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 00a313c..f8b6ca3 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -945,7 +945,7 @@ class AeoLiS(IBmi):
             else:
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Apx + Amx).flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1323,7 +1323,7 @@ class AeoLiS(IBmi):
             else:
                 A = scipy.sparse.diags((Am2.flatten()[2:],
                                         Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Apx + Amx).flatten(),
                                         Ap1.flatten()[:-1],
                                         Ap2.flatten()[:-2]),
                                        (-2,-1,0,1,2), format='csr')
@@ -1658,7 +1658,7 @@ class AeoLiS(IBmi):
                 j = p['nx']+1
                 ny = 0
                 A = scipy.sparse.diags((Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Apx + Amx).flatten(),
                                         Ap1.flatten()[:-1]),
                                        (-1, 0, 1), format='csr')
 
@@ -2067,7 +2067,7 @@ class AeoLiS(IBmi):
                                        (-j*p['ny'],-j,-1,0,1,j,j*p['ny']), format='csr')
             else:
                 A = scipy.sparse.diags((Am1.flatten()[1:],
-                                        A0.flatten(),
+                                        (A0 + Apx + Amx).flatten(),
                                         Ap1.flatten()[:-1]),
                                        (-1,0,1), format='csr')
 
-- 
2.43.0


From db0e50ebc9a7dc2676865d5e8d325408303713de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 25/79] fix: start the solvers with the top layer of a layered
 grain size distribution

---
 aeolis/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index f8b6ca3..10324e9 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -756,7 +756,7 @@ class AeoLiS(IBmi):
         if self.t == 0.:
             # use initial guess for first time step
             if p['grain_dist'] is not None:
-                w = p['grain_dist'].reshape((1,1,-1))
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
             else:
@@ -1137,7 +1137,7 @@ class AeoLiS(IBmi):
                 w = w_init.copy()
             else:
                 # use initial guess for first time step
-                w = p['grain_dist'].reshape((1,1,-1))
+                w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
                 w = w.repeat(p['ny']+1, axis=0)
                 w = w.repeat(p['nx']+1, axis=1)
         else:
@@ -1504,7 +1504,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
+            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
@@ -1916,7 +1916,7 @@ class AeoLiS(IBmi):
 
         if self.t == 0.:
             # use initial guess for first time step
-            w = p['grain_dist'].reshape((1,1,-1))
+            w = np.atleast_2d(p['grain_dist'])[0].reshape((1,1,-1))
             w = w.repeat(p['ny']+1, axis=0)
             w = w.repeat(p['nx']+1, axis=1)
             return dict(w=w)
-- 
2.43.0


From 13ff23c9c9850e7e60d6a4e60793613b4df50dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 26/79] fix: keep the reported pickup when deposits are
 exchanged between bed layers

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 388165e..d701f00 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -255,7 +255,7 @@ def update(s, p):
     nf = p['nfractions']
 
     # determine net erosion
-    pickup = s['pickup'].reshape((-1,nf))
+    pickup = s['pickup'].reshape((-1,nf)).copy()
 
     # determine total mass that should be exchanged between layers
     dm = -np.sum(pickup, axis=-1, keepdims=True).repeat(nf, axis=-1)
-- 
2.43.0


From 7c95261fbb5f37a8c07e8b6457b42768ad60598c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 27/79] fix: do not entrain sediment from the air-driven
 threshold on a non-erodible layer

---
 aeolis/threshold.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index db8f688..b81df46 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -428,6 +428,7 @@ def non_erodible(s,p):
     # Hard method
     for i in range(nf):
         s['uth'][ix,i] = np.inf     
+        s['uthf'][ix,i] = np.inf
    
     
     return s    
-- 
2.43.0


From 909354f1ef97cfc89a4d54dce3755f7308e69c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 28/79] fix: do not avalanche sediment from below the
 non-erodible layer

---
 aeolis/avalanching.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 7d7cd3e..71a7a9c 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -142,6 +142,9 @@ def avalanche(s, p):
                 ix = grad_h_nonerod < grad_h - tan_dyn 
                 slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
 
+                # never move more sediment than covers the non-erodible layer
+                slope_diff = np.minimum(slope_diff, np.maximum(0., s['zb'] - s['zne']))
+
                 ix = grad_h != 0
                 
                 if ny == 1:
-- 
2.43.0


From 1f8c9b4f89e92455f53be1eb16479903b1e749a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 29/79] fix: let beds without a non-erodible layer avalanche

---
 aeolis/avalanching.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aeolis/avalanching.py b/aeolis/avalanching.py
index 71a7a9c..1bdb41d 100644
--- a/aeolis/avalanching.py
+++ b/aeolis/avalanching.py
@@ -111,8 +111,11 @@ def avalanche(s, p):
         grad_h = np.zeros((ny,nx))
 
         max_iter_ava = p['max_iter_ava']
+
+        # without a non-erodible layer all sediment can move
+        zne = np.where(np.isnan(s['zne']), -np.inf, s['zne'])
         
-        max_grad_h, grad_h, grad_h_down = calc_gradients(s['zb'], nx, ny, s['ds'], s['dn'], s['zne'])
+        max_grad_h, grad_h, grad_h_down = calc_gradients(s['zb'], nx, ny, s['ds'], s['dn'], zne)
         
         s['gradh'] = grad_h.copy()
 
@@ -127,14 +130,14 @@ def avalanche(s, p):
                 slope_diff *= 0.
                 grad_h *= 0.
 
-                max_grad_h, grad_h, grad_h_down = calc_gradients(s['zb'], nx, ny, s['ds'], s['dn'], s[ 'zne'])
+                max_grad_h, grad_h, grad_h_down = calc_gradients(s['zb'], nx, ny, s['ds'], s['dn'], zne)
 
                 if max_grad_h < tan_dyn:
                     break
 
                 # Calculation of flux
 
-                grad_h_nonerod = (s['zb'] - s['zne']) / s['ds'] # HAS TO BE ADJUSTED!    
+                grad_h_nonerod = (s['zb'] - zne) / s['ds'] # HAS TO BE ADJUSTED!    
 				
                 ix = np.logical_and(grad_h > tan_dyn, grad_h_nonerod > 0)
                 slope_diff[ix] = np.tanh(grad_h[ix]) - np.tanh(0.9*tan_dyn)    
@@ -143,7 +146,7 @@ def avalanche(s, p):
                 slope_diff[ix] = np.tanh(grad_h_nonerod[ix])				                    
 
                 # never move more sediment than covers the non-erodible layer
-                slope_diff = np.minimum(slope_diff, np.maximum(0., s['zb'] - s['zne']))
+                slope_diff = np.minimum(slope_diff, np.maximum(0., s['zb'] - zne))
 
                 ix = grad_h != 0
                 
-- 
2.43.0


From c672f1f87f9f2ba2b4c95cdf9cc7737508d2db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 30/79] fix: include the latest time step in the statistics of
 the total sediment flux

---
 aeolis/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 10324e9..c2627e4 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2792,6 +2792,9 @@ class AeoLiSRunner(AeoLiS):
 
         '''
 
+        #also update the q variable here
+        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
+
         for k, exts in self.p['_output_vars'].items():
             v = np.array(self.get_var(k, clear=False))
             if 'min' in exts:
@@ -2803,9 +2806,6 @@ class AeoLiSRunner(AeoLiS):
             if 'var' in exts:
                 self.o[k]['var'] = self.o[k]['var'] + v**2
 
-        #also update the q variable here
-        self.s['q'] = np.hypot(self.s['qs'], self.s['qn'])
-
         self.n += 1
 
 
-- 
2.43.0


From c1ec00c17af45ddff3667427e9d4bc2261d17d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:05 +0000
Subject: [PATCH 31/79] fix: finish runs in which no time step was computed

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index c2627e4..18fd3ab 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3036,9 +3036,9 @@ class AeoLiSRunner(AeoLiS):
         logger.info(fmt % ('# matrix solves', aeolis.inout.print_value(n_matrixsolve)))
         logger.info(fmt % ('# supply lim', aeolis.inout.print_value(n_supplylim)))
         logger.info(fmt % ('avg. solves per step',
-                           aeolis.inout.print_value(float(n_matrixsolve) / n_time)))
+                           aeolis.inout.print_value(float(n_matrixsolve) / max(1, n_time))))
         logger.info(fmt % ('avg. time step',
-                           aeolis.inout.print_value(float(self.p['tstop']) / n_time)))
+                           aeolis.inout.print_value(float(self.p['tstop']) / max(1, n_time))))
 
         logger.info('**********************************************************')
         logger.info('')
-- 
2.43.0


From e86bfad81208290e85171b1990ab1fc1ad5c70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 32/79] fix: do not fail on dune erosion if a surge without
 waves exceeds the dune toe

---
 aeolis/erosion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/erosion.py b/aeolis/erosion.py
index ee51217..fa90d0d 100644
--- a/aeolis/erosion.py
+++ b/aeolis/erosion.py
@@ -81,7 +81,8 @@ def run_ph12(s, p, t):
     for iy in range(ny + 1):
         twl = s['R'][iy][0] * Kd + wl
 
-        if twl > zToe:
+        # without waves there are no collisions with the dune
+        if twl > zToe and s['sigma_s'][iy][0] > 0. and Tp > 0.:
             x = s['x'][iy, :]
             zb = s['zb'][iy, :]
             eta = s['eta'][iy][0]
-- 
2.43.0


From f0fdd8af4d9a9bffd81223eed483d57e0a2ba8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 33/79] fix: do not reset wet beds beyond their initial level

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index d701f00..9552588 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -211,7 +211,7 @@ def wet_bed_reset(s, p):
 
     if p['process_wet_bed_reset']:
         
-        Tbedreset = p['dt_opt'] / p['Tbedreset']
+        Tbedreset = np.minimum(1., p['dt_opt'] / p['Tbedreset'])
         
         ix = s['zs'] > (s['zb'] + 0.01)
         s['zb'][ix] += (s['zb0'][ix] - s['zb'][ix]) * Tbedreset
-- 
2.43.0


From 36573327e86f24cf7d2ca1f7788f7748fd62d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 34/79] fix: keep the average bed level change within the
 changes it averages

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 9552588..4467654 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -463,7 +463,7 @@ def average_change(l, s, p):
 
     # Collect time steps
     s['dzbyear'] = s['dzb'] * (3600. * 24. * 365.25) / (p['dt_opt'] * p['accfac'])
-    n = (p['dt_opt'] * p['accfac']) / p['avg_time']
+    n = np.minimum(1., (p['dt_opt'] * p['accfac']) / p['avg_time'])
     s['dzbavg'] = n*s['dzbyear']+(1-n)*l['dzbavg']
     
     # Calculate average bed level change as input for vegetation growth [m/year]
-- 
2.43.0


From dffbebf035282a6d2454632781b859897c18941a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 35/79] fix: store the components of the flat bed shear
 velocity instead of its magnitude

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index c4f51d9..962a2c9 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -136,8 +136,8 @@ def interpolate(s, p, t):
     s = velocity_stress(s,p)
         
     s['ustar0'] = s['ustar'].copy()
-    s['ustars0'] = s['ustar'].copy()
-    s['ustarn0'] = s['ustar'].copy()
+    s['ustars0'] = s['ustars'].copy()
+    s['ustarn0'] = s['ustarn'].copy()
         
     s['tau0'] = s['tau'].copy()
     s['taus0'] = s['taus'].copy()
-- 
2.43.0


From c4cb6c724fef4cf430f2d8577afa58560b3f3136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 36/79] fix: compute the saturation concentration over a flat
 bed in all transport formulations

---
 aeolis/transport.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aeolis/transport.py b/aeolis/transport.py
index 03dd9a6..8224b57 100644
--- a/aeolis/transport.py
+++ b/aeolis/transport.py
@@ -327,17 +327,21 @@ def equilibrium(s, p):
             Dref = 0.000250
             d = p['grain_size'][np.newaxis,np.newaxis,:].repeat(nx+1, axis=1).repeat(p['ny']+1, axis=0)
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
-            s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cuf'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uthf[ix])**3 / u[ix])
             
-            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar[ix] - uth[ix])**3 / u[ix])
+            s['Cu0'][ix] = np.maximum(0., p['Cb'] * np.sqrt(d[ix]/Dref) * rhoa / g * (ustar0[ix] - uth0[ix])**3 / u[ix])
         
         elif p['method_transport'].lower() == 'kawamura':
             s['Cu'][ix]  = np.maximum(0., p['Ck'] * rhoa / g * (ustar[ix] + uth[ix])**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0, p['Ck'] * rhoa / g * (ustar[ix] + uthf[ix])**2 * (ustar[ix] - uthf[ix]) / u[ix])
+            
+            s['Cu0'][ix] = np.maximum(0., p['Ck'] * rhoa / g * (ustar0[ix] + uth0[ix])**2 * (ustar0[ix] - uth0[ix]) / u[ix])
         
         elif p['method_transport'].lower() == 'lettau':
             s['Cu'][ix]  = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uth[ix]) / u[ix])
             s['Cuf'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar[ix]**2 * (ustar[ix] - uthf[ix]) / u[ix])
+            
+            s['Cu0'][ix] = np.maximum(0., p['Cl'] * rhoa / g * ustar0[ix]**2 * (ustar0[ix] - uth0[ix]) / u[ix])
 
         elif p['method_transport'].lower() == 'dk':
             s['Cu'][ix]  = np.maximum(0., p['Cdk'] * rhoa / g * 0.8*uth[ix] * (ustar[ix]**2 - (0.8*uth[ix])**2) / u[ix])
@@ -354,7 +358,7 @@ def equilibrium(s, p):
          
         elif p['method_transport'].lower() == 'vanrijn_strypsteen':
             s['Cu'][ix]  = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uth[ix])**3) / u[ix])
-            s['Cuf'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uth[ix])**3) / u[ix])
+            s['Cuf'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar[ix])**3 - (uthf[ix])**3) / u[ix])
             
             s['Cu0'][ix] = np.maximum(0., p['Cb'] * rhoa / g * ((ustar0[ix])**3 - (uth0[ix])**3) / u[ix])
         
-- 
2.43.0


From b4c64df84b773c1d5a366571dbf57604852ff15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:36 +0000
Subject: [PATCH 37/79] fix: use a prescribed threshold for all thresholds and
 in one dimension

---
 aeolis/bed.py       |  2 +-
 aeolis/threshold.py | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 4467654..9859c41 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -113,7 +113,7 @@ def initialize(s, p):
 
     # initialize threshold
     if p['threshold_file'] is not None:
-        s['uth'] = p['threshold_file'][:,:,np.newaxis].repeat(nf, axis=-1)
+        s['uth'] = p['threshold_file'].reshape(s['zb'].shape)[:,:,np.newaxis].repeat(nf, axis=-1)
         
     return s
 
diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index b81df46..7481f16 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -100,6 +100,14 @@ def compute(s, p):
         # apply complex mask
         s['uth'] = apply_mask(s['uth'], s['threshold_mask'])
         s['uthf'] = s['uth'].copy()
+
+    elif p['threshold_file'] is not None:
+
+        # prescribed threshold
+        uth = p['threshold_file'].reshape(s['zb'].shape)
+        s['uth'] = uth[:,:,np.newaxis].repeat(p['nfractions'], axis=-1)
+        s['uthf'] = s['uth'].copy()
+        s['uth0'] = s['uth'].copy()
         
     #non-erodible layer (NEW)
     if p['th_nelayer']:
@@ -229,7 +237,7 @@ def compute_moisture(s, p):
         d = np.sum(p['grain_size'] * p['grain_dist'])   
         s['uth'][ix] = 0.16 * np.sqrt((p['rhog'] - p['rhoa']) / p['rhoa'] * p['g'] * d) * (1 + 478.2 * mg[ix] ** 1.52)
     else:
-        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist'], exc=ValueError)
+        logger.log_and_raise('Unknown moisture formulation [%s]' % p['method_moist_threshold'], exc=ValueError)
 
     # should be .04 according to Pye and Tsoar
     # should be .64 according to Delgado-Fernandez (10% vol.)
-- 
2.43.0


From 472b19316ecac9bd98f636f3c142733e716d5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 38/79] fix: keep infinite thresholds infinite in sheltered
 cells

---
 aeolis/threshold.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/threshold.py b/aeolis/threshold.py
index 7481f16..f7fef20 100644
--- a/aeolis/threshold.py
+++ b/aeolis/threshold.py
@@ -398,7 +398,8 @@ def compute_sheltering(s, p):
     s['Rti'] = Rti
 
     # modify shear velocity threshold
-    s['uth'] *= Rti.reshape((ny,nx,1)).repeat(nf, axis=-1)
+    ix = np.isfinite(s['uth'])
+    s['uth'][ix] *= Rti.reshape((ny,nx,1)).repeat(nf, axis=-1)[ix]
     
     return s
 
-- 
2.43.0


From eeb1d417a5319bc4c83086e71fe4fe9e42ad4aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 39/79] fix: do not let the datum of the bed level perturb the
 wind shear

---
 aeolis/shear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index dd33ee5..a27edd1 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -547,7 +547,8 @@ class WindShear:
         kx, ky = np.meshgrid(2. * np.pi * np.fft.fftfreq(nx+1, gc['dx'])[1:],
                              2. * np.pi * np.fft.fftfreq(ny+1, gc['dy'])[1:])
         
-        hs = np.fft.fft2(gc['z'])
+        # only variations in bed level perturb the wind, not the bed level itself
+        hs = np.fft.fft2(gc['z'] - np.mean(gc['z']))
         hs = self.filter_highfrequenies(kx, ky, hs, nfilter)
         
         z0 = self.z0            # roughness length which takes into account saltation
-- 
2.43.0


From 75b2a3d891b9c8dbcaa742855f31874c7464dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:24 +0000
Subject: [PATCH 40/79] fix: extend the bed beyond the padded grid in the wind
 shear computation

---
 aeolis/shear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index a27edd1..aadf0e9 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -876,6 +876,8 @@ class WindShear:
             # in the scipy 1.10 version the regular grid interpolator does not work with non c-contigous arrays.
             # Here we make a copy as a dirty solution feeding the interpolator with ordered copies             
             inter = scipy.interpolate.RegularGridInterpolator((y_pad[:,0].copy(order='C'), x_pad[0,:].copy(order='C')), z_pad, bounds_error = False, fill_value = z0)
+            # the padding extends indefinitely
+            xyi = np.clip(xyi, [y_pad[0,0], x_pad[0,0]], [y_pad[-1,0], x_pad[0,-1]])
             zi = inter(xyi).reshape(xi.shape)
             
             
-- 
2.43.0


From 0df4a7ccde13cedbb56123bc9da0b022f91503ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 41/79] fix: keep the direction of the wind shear near sand
 fences

---
 aeolis/fences.py | 59 +++++++++---------------------------------------
 1 file changed, 11 insertions(+), 48 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 38611d3..4d186b2 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -186,56 +186,19 @@ def calc_fence_shear(igrid, cgrid, udir, x0, y0, p):
     # Compute wind shear stresses on computational grid
     gc = compute_fenceshear(gi, gc, udir, p)
 
-    ustarx_init = gc['ustarx'][0,0]
-    gc['ustarx'] = gc['ustarx'] * gc['mult_all']
-    gc['ustary'] = np.zeros(gc['x'].shape)
-
-    #ensure bad data doesnt make it through
-    #ix = gc['mindist'] > 20
-    #gc['ustarx'][ix] = ustarx_init
-
-
-    gc['ustarx'], gc['ustary'] = rotate(gc['ustarx'], gc['ustary'], udir + 90)
-
-    # Rotate both (i&c) grids + results in opposite dir.
-    gi['x'], gi['y'] = rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0))
-
-    gc['x'], gc['y'] = rotate(gc['x'], gc['y'], -(udir + 90.), origin=(x0, y0))
-
-    gc['ustary'], gc['ustarx'] = rotate(gc['ustarx'], gc['ustary'], -(udir + 90))
-
-    # Interpolate wind shear results to real grid
-    gi['ustarx'] = interpolate(gc['x'], gc['y'], gc['ustarx'],
-                               gi['x'], gi['y'])
-    gi['ustary'] = interpolate(gc['x'], gc['y'], gc['ustary'],
-                               gi['x'], gi['y'])
-
-    # Rotate real grid and wind shear results back to orignal orientation
-    gc['x'], gc['y'] = rotate(gc['x'], gc['y'], udir + 90., origin=(x0, y0))
-    gi['x'], gi['y'] = rotate(gi['x'], gi['y'], +(udir + 90.), origin=(x0, y0))
-
-    gi['ustarx'], gi['ustary'] = rotate(gi['ustarx'], gi['ustary'], +(udir + 90))
+    # Interpolate the reduction of the wind shear to the real grid
+    mult = interpolate(gc['xi'], gc['yi'], gc['mult_all'], *rotate(gi['x'], gi['y'], -(udir + 90.), origin=(x0, y0)))
 
     #avoid any boundary effects
-    #gi['ustarx'][1,:] = gi['ustarx'][2,:]
-    #gi['ustarx'][:,1] = gi['ustarx'][:,2]
-    #gi['ustarx'][-2,:] = gi['ustarx'][-3,:]
-    #gi['ustarx'][:,-2] = gi['ustarx'][:,-3]
-
-    #gi['ustary'][1,:] = gi['ustary'][1,:]
-    #gi['ustary'][:,1] = gi['ustary'][:,1]
-    #gi['ustary'][-2,:] = gi['ustary'][-2,:]
-    #gi['ustary'][:,-2] = gi['ustary'][:,-2]
-
-    gi['ustarx'][0,:] = gi['ustarx'][1,:]
-    gi['ustarx'][:,0] = gi['ustarx'][:,1]
-    gi['ustarx'][-1,:] = gi['ustarx'][-2,:]
-    gi['ustarx'][:,-1] = gi['ustarx'][:,-2]
-
-    gi['ustary'][0,:] = gi['ustary'][1,:]
-    gi['ustary'][:,0] = gi['ustary'][:,1]
-    gi['ustary'][-1,:] = gi['ustary'][-2,:]
-    gi['ustary'][:,-1] = gi['ustary'][:,-2]
+    mult[0,:] = mult[1,:]
+    mult[:,0] = mult[:,1]
+    mult[-1,:] = mult[-2,:]
+    mult[:,-1] = mult[:,-2]
+
+    # The wind shear is reduced, but keeps its direction
+    gi['mult_all'] = mult
+    gi['ustarx'] = gi['ustarx'] * mult
+    gi['ustary'] = gi['ustary'] * mult
 
     return gi, gc
 
-- 
2.43.0


From 1ba45f7b9b7bb9814f2c2927ddcbd289c89a412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 42/79] fix: shelter the lee of sand fences over the distance
 along the wind

---
 aeolis/fences.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/aeolis/fences.py b/aeolis/fences.py
index 4d186b2..da348df 100644
--- a/aeolis/fences.py
+++ b/aeolis/fences.py
@@ -305,7 +305,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
     for iy in range(ny):
 
         # intialize other grid parameters
-        x = gc['x'][iy, :]
+        x = gc['xi'][iy, :] # distance along the wind
         zp = gc['z'][iy, :]
         red_all = np.zeros(x.shape)
 
@@ -320,10 +320,7 @@ def compute_fenceshear(igrid, cgrid, udir, p):
 
                 # print(zp[igrid])
                 # local parameters
-                if udir >= 180 and udir <= 360:
-                    xrel = x - x[igrid]
-                else:
-                    xrel = -(x - x[igrid])
+                xrel = x - x[igrid]
 
                 red = np.zeros(x.shape)
                 mult = np.ones(x.shape)
-- 
2.43.0


From 4a8a900a513b76a3b8d5d61f8aa890e12acc2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 43/79] fix: do not see a separation bubble above beds below
 zero

---
 aeolis/shear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/shear.py b/aeolis/shear.py
index aadf0e9..ac2ec02 100644
--- a/aeolis/shear.py
+++ b/aeolis/shear.py
@@ -396,8 +396,8 @@ class WindShear:
         
         k = np.array(range(0, nx))
               
-        zsep =  np.zeros(z.shape)                                                  # total separation bubble      
-        zsep_new =  np.zeros(z.shape)                                               # first-oder separation bubble surface
+        zsep = z.copy()                                                             # total separation bubble      
+        zsep_new = z.copy()                                                         # first-oder separation bubble surface
                 
         zfft = np.zeros((ny,nx), dtype=complex)
 
@@ -473,7 +473,7 @@ class WindShear:
             
             for filter_iter in range(sep_filter_iterations):
                 
-                zsep_new = np.zeros(zsep.shape) 
+                zsep_new = z.copy() 
                 
                 Cut = 1.5
                 dk = 2.0 * np.pi / (np.max(x))
-- 
2.43.0


From df36b3660a35fc5de6625eff2dd480c4e409041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:36 +0000
Subject: [PATCH 44/79] fix: use the cell size of the grid for separation
 bubbles in one dimension

---
 aeolis/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 962a2c9..45264ea 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -362,7 +362,7 @@ def separation1d(s, p):
     x = s['x'][0,:]
     #x = s['x']
     z = s['zb'][0,:]
-    dx = p['dx']
+    dx = np.abs(x[1] - x[0])
     dy = dx
     c = p['c_b']
     mu_b = p['mu_b']
-- 
2.43.0


From 974ac0b81a5efbd3c4b1c8ca027c7492aff703d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 45/79] fix: reduce the shear velocity in separation bubbles in
 one dimension

---
 aeolis/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 45264ea..27ec6bf 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -248,6 +248,7 @@ def shear(s,p):
             zsepdelta = np.minimum(np.maximum(1. - delta * s['hsep'], 0.), 1.)
             s['taus'] *= zsepdelta
             s['taun'] *= zsepdelta
+            s['tau'] *= zsepdelta
             s = stress_velocity(s, p)
 
     # if p['process_nelayer']:
-- 
2.43.0


From f267cff08962ea2920a7699a0d754a1f51e68822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 46/79] fix: remember the previous groundwater level by value

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 620e629..2732fca 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -245,13 +245,13 @@ def update(s, p, dt,t):
         #Initialize GW levels
         if t == p['tstart']:
             s['gw'][:,:] = p['in_gw']
-            s['gw_prev'] = s['gw']
+            s['gw_prev'] = s['gw'].copy()
             s['wetting'] = s['gw'] > s['gw_prev']       
             
         #Specify wetting or drying conditions in previous timestep
         s['wetting'] = s['gw'] > s['gw_prev']
         #Save groundwater from previous timestep
-        s['gw_prev'] = s['gw']        
+        s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
         dt_gw = int(dt / p['tfac_gw'])
-- 
2.43.0


From 2c87a68f12df853a0cfc943c5b2f4323da5190f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 47/79] fix: compute the groundwater over the entire time step

---
 aeolis/hydro.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 2732fca..bf33278 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -254,8 +254,9 @@ def update(s, p, dt,t):
         s['gw_prev'] = s['gw'].copy()
         
         #Decrease timestep for GW computations
-        dt_gw = int(dt / p['tfac_gw'])
-        for i in range(int(dt / dt_gw)):
+        n_gw = max(1, int(np.ceil(p['tfac_gw'])))
+        dt_gw = dt / n_gw
+        for i in range(n_gw):
             t_gw = t + i * dt_gw
             interpolate(s,p,t_gw)
                 
-- 
2.43.0


From aa6601483aaac4d22839acae1bc5399115f2060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 48/79] fix: apply the seaward groundwater boundary at the
 shoreline of the row itself

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index bf33278..8c69ca1 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -424,7 +424,7 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     #Define seaward boundary gw=setup
     for i in range (len(GW[:,0])):
         GW[i,shl_ix[i]] = DSWL[i,shl_ix[i]]
-        GW[i,shl_ix[i-1]] = DSWL[i,shl_ix[i-1]]
+        GW[i,shl_ix[i]-1] = DSWL[i,shl_ix[i]-1]
     # GW[:,shl_ix] = s['DSWL'][:,shl_ix]
     # GW[:,shl_ix-1] = s['DSWL'][:,shl_ix-1]
 
-- 
2.43.0


From e7a49b24b74097edefc429223712ac2f0df0036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 49/79] fix: compute the groundwater if the shoreline or runup
 limit is outside the grid

---
 aeolis/hydro.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 8c69ca1..afc0f86 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -262,10 +262,13 @@ def update(s, p, dt,t):
                 
             #Define index of shoreline location
             shl_ix =np.argmax(s['zb'] > s['DSWL'],axis=1) - 1
-            
+            shl_ix[np.all(s['zb'] <= s['DSWL'],axis=1)] = s['zb'].shape[1] - 1
+            shl_ix = np.maximum(shl_ix, 1)
 
             #Define index of runup limit
             runup_ix =np.argmax(s['zb'] > s['TWL'],axis=1) - 1
+            runup_ix[np.all(s['zb'] <= s['TWL'],axis=1)] = s['zb'].shape[1] - 1
+            runup_ix = np.maximum(runup_ix, shl_ix)
             
             # Landward boundary condition
             if p['boundary_gw'].lower() == 'no_flow':
@@ -473,6 +476,8 @@ def runup_overheight_distr(fx, fx_ix,shl_ix,runup_ix, x):
     
     '''
     for i in range(len(fx[:,0])):
+        if runup_ix[i] <= shl_ix[i]:
+            continue
         #Define index of peak f(x)
         fx_ix[i] = (shl_ix[i]) + (2/3 * (runup_ix[i] - shl_ix[i]))
         #Compute f(X)
-- 
2.43.0


From 795097e9d9261edc6ef6555ecb3859d0115e0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 50/79] fix: use the gradient of the groundwater level in the
 Boussinesq equation

---
 aeolis/hydro.py              | 4 ++--
 docs/user/implementation.rst | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index afc0f86..bfc1328 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -463,8 +463,8 @@ def Boussinesq (GW, DSWL, ds, GW_stat, K_gw, ne_gw, D_gw,shl_ix, bound,zb,proces
     for i in range(len(a[:,0])):
         if shl_ix[i] < len(a[0,:]) - 3:   
             a[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]+1:-1] - 2 * GW[i,shl_ix[i]:-2] + GW[i,shl_ix[i]-1:-3]) / ds[i,shl_ix[i]:-2] ** 2
-            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] + GW[i,shl_ix[i]-1:-3])) / ds[i,shl_ix[i]:-2]                  
-            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/ds[i,shl_ix[i]+1:-3]
+            b[i,shl_ix[i]:-2]=(GW[i,shl_ix[i]:-2] * (GW[i,shl_ix[i]+1:-1] - GW[i,shl_ix[i]-1:-3])) / (2 * ds[i,shl_ix[i]:-2])                  
+            c[i,shl_ix[i]+1:-3]=(b[i,shl_ix[i]+2:-2]-b[i,shl_ix[i]:-4])/(2 * ds[i,shl_ix[i]+1:-3])
             dGW[i,shl_ix[i]+1:-3]=K_gw / ne_gw * (D_gw * a[i,shl_ix[i]+1:-3] + c[i,shl_ix[i]+1:-3])
 
     return dGW
diff --git a/docs/user/implementation.rst b/docs/user/implementation.rst
index 532b560..46f24a4 100644
--- a/docs/user/implementation.rst
+++ b/docs/user/implementation.rst
@@ -690,10 +690,10 @@ where, :math:`i` is the grid cell in x-direction and :math:`t` is the timestep.
    {a_i} = \frac{{\eta _{i + 1}^{} - 2\eta _i^{} + \eta _{i - 1}^{}}}{{{{(\Delta x)}^2}}}
 
 .. math::
-      {b_i} = \frac{{\eta _i^{}\left( {\eta _{i + 1}^{} - \eta _{i - 1}^{}} \right)}}{{\Delta x}}
+      {b_i} = \frac{{\eta _i^{}\left( {\eta _{i + 1}^{} - \eta _{i - 1}^{}} \right)}}{{2\Delta x}}
 
 .. math::
-      {c_i} = \frac{{\left( {b_{i + 1}^{} - b_{i - 1}^{}} \right)}}{{\Delta x}}
+      {c_i} = \frac{{\left( {b_{i + 1}^{} - b_{i - 1}^{}} \right)}}{{2\Delta x}}
 
 The seaward boundary condition is defined as the still water level plus the wave setup . 
 If the groundwater elevation is larger than the bed elevation, there is a seepage face, 
-- 
2.43.0


From 593d29116e0343b2fd99bd341dcd527e14525407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 51/79] fix: report unknown groundwater boundary conditions

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index bfc1328..81e7626 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -280,7 +280,7 @@ def update(s, p, dt,t):
                 bound = 1
                 
             else:
-                 logger.log_and_raise('Unknown landward groundwater boundary condition' % p['boundary_gw'], exc=ValueError)
+                 logger.log_and_raise('Unknown landward groundwater boundary condition [%s]' % p['boundary_gw'], exc=ValueError)
 
         
             #Runge-Kutta timestepping
-- 
2.43.0


From f4eafeebab7d84bbc0a9b9d719fb8b8dd48ef463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 52/79] fix: let the water levels follow the tide without wave
 runup

---
 aeolis/hydro.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 81e7626..6126ae8 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -175,6 +175,9 @@ def interpolate(s, p, t):
             s['TWL'][:] = s['SWL'][:]  + s['R'][:]
             s['DSWL'][:] = s['SWL'][:] # + s['eta'][:]       # DSWL is actually provided by FM (?)
 
+    else:
+        s['TWL'] = s['SWL'].copy()
+        s['DSWL'] = s['SWL'].copy()
 
     if p['process_wave'] and p['wave_file'] is not None:
 
-- 
2.43.0


From e2c0e8a182f71d6c031cb3d33c715a74f7acd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 53/79] fix: keep the setup and swash of externally provided
 waves

---
 aeolis/hydro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 6126ae8..5a172c5 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -167,6 +167,8 @@ def interpolate(s, p, t):
 
             eta, sigma_s, R = calc_runup_stockdon(s['Hs'], s['Tp'], p['beach_slope'])
             s['R'][:] = R
+            s['eta'][:] = eta
+            s['sigma_s'][:] = sigma_s
 
             if hasattr(s['runup_mask'], "__len__"):
                 s['eta'] = apply_mask(s['eta'], s['runup_mask'])
@@ -650,7 +652,7 @@ def calc_runup_stockdon(Ho, Tp, beta):
         sigma_s[i_iri] = 0.046 * np.sqrt(Ho[i_iri] * Lo[i_iri]) /2
         eta[i_iri] = R[i_iri] - sigma_s[i_iri]
 
-        i_iri = (Ho > 0) * (iribarren > 0.3)
+        i_iri = (Ho > 0) * (iribarren >= 0.3)
         nsigma = 2  # nsigma=1 for R16% and nsigma=2 for R2%
         eta[i_iri] = 0.35 * beta * np.sqrt(Ho[i_iri] * Lo[i_iri])
         sigma_s[i_iri] = np.sqrt(Ho[i_iri] * Lo[i_iri] * (0.563 * (beta * beta) + 0.0004)) * nsigma / 2 / 2
-- 
2.43.0


From a28b589d3cf8841c93a6c47b45c5b8e8afa78ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 54/79] fix: compute salinitation without surface moisture and
 meteorology

---
 aeolis/hydro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 5a172c5..8d64a87 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -411,11 +411,11 @@ def update(s, p, dt,t):
 
     # salinitation
     if p['process_salt']:
-        met = s['meteo']
         F2 = -np.log(.5) / p['Tsalt']
+        ix = s['TWL'] - s['zb'] > p['eps']
         s['salt'][ ix,0] = 1.
         s['salt'][~ix,0] *= np.exp(-F2 * dt)
-        pcp = met['RH'] / 3600. / 1000. # convert precipitation from mm/hr to m/s
+        pcp = s['meteo']['RH'] / 3600. / 1000. if 'meteo' in s else 0. # convert precipitation from mm/hr to m/s
         s['salt'][:,:,0] = np.minimum(1., s['salt'][:,:,0] + pcp * dt / p['layer_thickness'])
 
     return s
-- 
2.43.0


From 86297e613c79c32bd6cd1927c2ea2d7c213044c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 55/79] fix: initialize the scanning curves at the start of the
 simulation

---
 aeolis/hydro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index 8d64a87..b538088 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -362,12 +362,12 @@ def update(s, p, dt,t):
             
             if p['process_scanning']:
             #Initialize value of surface moisture due to capillary rise
-                if t == 0:
+                if t == p['tstart']:
                     s['moist_swr'] = p['resw_moist'] + (p['satw_moist'] - p['resw_moist']) \
                           / (1 + abs(p['alfaw_moist'] * h) ** p['nw_moist']) ** p['mw_moist']
                     s['h_delta'][:,:]=np.maximum(0,(s['zb'] - s['gw'])*100)
-                    s['scan_w'][:,:] == False
-                    s['scan_d'][:,:] == False
+                    s['scan_w'][:,:] = False
+                    s['scan_d'][:,:] = False
                 else:
                     #Compute h_delta
                     s['h_delta'] = hdelta(s['wetting'], s['scan_w'], s['gw'],s['gw_prev'],s['scan_d'],s['h_delta'],s['zb'],s['scan_w_moist'],s['scan_d_moist'],s['w_h'],p['satd_moist'],s['d_h'],p['satw_moist'],p['alfaw_moist'],p['alfad_moist'],p['resw_moist'],p['resd_moist'],p['mw_moist'],p['md_moist'],p['nw_moist'],p['nd_moist'])
-- 
2.43.0


From 78e2031187acedd38960495cf07ae0f22ab0b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 56/79] fix: start drying scanning curves at the moisture
 content of the reversal

---
 aeolis/hydro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/hydro.py b/aeolis/hydro.py
index b538088..944cd90 100644
--- a/aeolis/hydro.py
+++ b/aeolis/hydro.py
@@ -504,7 +504,7 @@ def hdelta(wetting, scan_w, gw,gw_prev,scan_d,h_delta,zb,scan_w_moist,scan_d_moi
                 #intermediate solution:
                 w_hdelta_int = np.minimum((scan_w_moist[i,j] - w_h[i,j]) * (satd_moist - w_h[i,j]) / (d_h[i,j] - w_h[i,j]) + w_h[i,j], satw_moist)
                 #Solve hdelta from wetting curve
-                h_delta[i,j] = np.maximum( 1 / alfaw_moist * (((satw_moist - resw_moist) \
+                h_delta[i,j] = np.maximum( 1 / np.abs(alfaw_moist) * (((satw_moist - resw_moist) \
                     / np.maximum((w_hdelta_int - resw_moist),0.00001)) ** (1 / mw_moist) - 1) ** (1 / nw_moist),0)
             #Compute h_delta if there is a reversal on the drying scanning curve
             if scan_d[i,j] == True and wetting[i,j] == False and gw[i,j] > gw_prev[i,j]:
-- 
2.43.0


From 316b8a496668d553a9652168286f1c1d9115f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 57/79] fix: do not grow vegetation that has died

---
 aeolis/vegetation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 6fc5832..1837dd6 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -137,6 +137,7 @@ def grow (s, p): #DURAN 2006
                                                     
     # Reduction of vegetation growth due to sediment burial
     s['dhveg'][ix] = p['V_ver'] * (1 - s['hveg'][ix] / p['hveg_max']) - np.abs(s['dzbveg'][ix]-p['dzb_opt']) * p['veg_gamma']  # m/year
+    s['dhveg'][~ix] = 0.
 
     # Adding growth
     if p['veggrowth_type'] == 'orig': #based primarily on vegetation height
-- 
2.43.0


From 0e01d4e2115f51ef2714eb735a686b12824c8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 58/79] fix: grow vegetation density where it grows and over
 the actual time step

---
 aeolis/vegetation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 1837dd6..bf92ec0 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -151,11 +151,10 @@ def grow (s, p): #DURAN 2006
         ix2 = s['rhoveg'] > rhoveg_max
         s['rhoveg'][ix2] = rhoveg_max
         ixzero = s['rhoveg'] <= 0
+        s['drhoveg'][:,:] = 0.
         if p['V_ver'] > 0:
             s['drhoveg'][ix] = (rhoveg_max - s['rhoveg'][ix])/t_veg - (v_gam/p['hveg_max'])*np.abs(s['dzbveg'][ix] - p['dzb_opt'])*p['veg_gamma']
-        else:
-            s['drhoveg'][ix] = 0
-        s['rhoveg'] += s['drhoveg']*(p['dt']*p['accfac'])/(365.25 * 24 *3600)
+        s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
-- 
2.43.0


From 1aed1e0b280233b5480d156d34de60586927ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 59/79] fix: use the cell size of the grid for lateral
 expansion in one dimension

---
 aeolis/vegetation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index bf92ec0..7e2febc 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -106,7 +106,7 @@ def germinate(s,p):
     if ny > 1:
         dx = s['ds'][2,2]
     else:
-        dx = p['dx']
+        dx = s['ds'][0,0]
 
     p_lateral_year = p['lateral']  
     p_lateral_dt = 1-(1-p_lateral_year)**(1./n)
-- 
2.43.0


From ba3dd61810035a99732199dbec4bdd2cc6465be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 60/79] fix: do not grow vegetation density beyond its maximum

The explicit growth step overshoots the maximum density when the time step
exceeds the growth time scale, giving covers above one.
---
 aeolis/vegetation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeolis/vegetation.py b/aeolis/vegetation.py
index 7e2febc..37e9bba 100644
--- a/aeolis/vegetation.py
+++ b/aeolis/vegetation.py
@@ -157,6 +157,8 @@ def grow (s, p): #DURAN 2006
         s['rhoveg'] += s['drhoveg']*(p['dt_opt']*p['accfac'])/(365.25 * 24 *3600)
         irem = s['rhoveg'] < 0
         s['rhoveg'][irem] = 0
+        iexc = s['rhoveg'] > rhoveg_max
+        s['rhoveg'][iexc] = rhoveg_max
         s['rhoveg'][ixzero] = 0 #here only grow vegetation that already existed
         #now convert back to height for Okin or wherever else needed
         s['hveg'][:,:] = p['hveg_max']*np.sqrt(s['rhoveg'])
-- 
2.43.0


From 430bfc8e75346ebf755676186a20f0cac6145234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:28 +0000
Subject: [PATCH 61/79] fix: make variables given at construction of the model
 state mutable

The documentation states that variables are mutable by default.
---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index 18fd3ab..da47dfa 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -102,8 +102,8 @@ class ModelState(dict):
 
     def __init__(self, *args, **kwargs) -> None:
         """Initialize dictionary for model states"""
-        self.ismutable = set()
         super(ModelState, self).__init__(*args, **kwargs)
+        self.ismutable = set(self.keys())
 
 
     def __setitem__(self, k:str, v:Any) -> None:
-- 
2.43.0


From 1698d30887b07bc4e2c4b71485377593ed349d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 62/79] fix: accept any white space between the values of a
 parameter

Aligned values (double spaces) were read with None in between and tabs made
the whole value a string.
---
 aeolis/inout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index c160bbe..ff0ddc2 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -286,8 +286,8 @@ def parse_value(val, parse_files=True, force_list=False):
         
     val = val.strip()
     
-    if ' ' in val or force_list:
-        return np.asarray([parse_value(x) for x in val.split(' ')])
+    if re.search(r'\s', val) or force_list:
+        return np.asarray([parse_value(x) for x in val.split() or ['']])
     elif re.match('^[TF]$', val):
         return val == 'T'
     elif re.match('^-?\d+$', val):
-- 
2.43.0


From 0afa5fefe68b9882fbf2193993c3ddb3b9cf4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 63/79] fix: do not fail on texts with dots that are no number

Values like 1.2.3 or .. stopped reading the configuration with a ValueError.
---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index ff0ddc2..d8c8294 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -292,7 +292,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return val == 'T'
     elif re.match('^-?\d+$', val):
         return int(val)
-    elif re.match('^-?[\d\.]+([eE][-+]?\d+)?$', val):
+    elif re.match(r'^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', val):
         return float(val)
     elif re.match('None', val):
         return None
-- 
2.43.0


From de7e43f6efee1413855e21cd2916b6b69acefe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 64/79] fix: only read the word None as no value

Texts and file names that start with None were dropped.
---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index d8c8294..8cdff97 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -294,7 +294,7 @@ def parse_value(val, parse_files=True, force_list=False):
         return int(val)
     elif re.match(r'^-?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?$', val):
         return float(val)
-    elif re.match('None', val):
+    elif re.match('^None$', val):
         return None
     elif os.path.isfile(val) and parse_files:
         for dtype in [float, complex]:
-- 
2.43.0


From 9eebc94b28a93eec3a15607dee9d97cd0aa6c4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 65/79] fix: write a valid time unit when the reference date
 has a time of day

A reference date with a time is read as two words and was written to the
netCDF units as a list.
---
 aeolis/netcdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 9a10a40..796d8b3 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -209,7 +209,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.createVariable('time', 'float64', (u'time',))
         nc.variables['time'].long_name = 'time'
         nc.variables['time'].standard_name = 'time'
-        nc.variables['time'].units = 'seconds since %s' % p['refdate']
+        nc.variables['time'].units = 'seconds since %s' % print_value(p['refdate'])
         nc.variables['time'].calendar = 'julian'
         nc.variables['time'].axis = 'T'
         nc.variables['time'].bounds = 'time_bounds'
@@ -232,7 +232,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.variables['lon_bounds'].comment = 'longitude values at the west and east bounds of each pixel.'
             
         nc.createVariable('time_bounds', 'float32', (u'time', u'nv'))
-        nc.variables['time_bounds'].units = 'seconds since %s' % p['refdate']
+        nc.variables['time_bounds'].units = 'seconds since %s' % print_value(p['refdate'])
         nc.variables['time_bounds'].comment = 'time bounds for each time value'
 
         meta = parse_metadata(outputvars)
-- 
2.43.0


From 080afc699a5befc250c519e51e20ae0af39bcd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 66/79] fix: keep generated wind speeds below the maximum wind
 speed

---
 aeolis/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index da47dfa..a2de9ba 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3185,7 +3185,7 @@ class WindGenerator():
         self.state = next(j for j,v in enumerate(self.MTMcum[self.state]) if v > r1)
         self.states.append(self.state)
 
-        u = np.maximum(0., self.bins[self.state] - 0.5 + r2 * self.bin_size)
+        u = np.maximum(0., self.bins[self.state] + (r2 - 0.5) * self.bin_size)
         self.wind_speeds.append(u)
 
         self.t += self.dt
-- 
2.43.0


From a1e31318f2d102a375c430ca3d5a5f5ac71fbae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 67/79] fix: use as many wind speed bins as states

---
 aeolis/model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a2de9ba..edeabcd 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -3098,9 +3098,7 @@ class WindGenerator():
         weib_scale=scale*float(mean_speed)/np.sqrt(np.pi);
 
         # wind speed bins
-        self.bins = np.arange(self.bin_size/2.0,
-                              float(max_speed) + self.bin_size/2.0,
-                              self.bin_size)
+        self.bins = (np.arange(n_states) + 0.5) * self.bin_size
 
         # distribution of probabilities, normalised
         fdpWind = self.weibullpdf(self.bins, weib_scale, weib_shape)
-- 
2.43.0


From 91028f0d570653d23c097fa716f18ccbb42f9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 68/79] fix: do not share lists of the default configuration
 between models

---
 aeolis/inout.py | 3 ++-
 aeolis/model.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index 8cdff97..fa5b8ab 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -29,6 +29,7 @@ from __future__ import absolute_import, division
 
 import os
 import re
+import copy
 import time
 import shutil
 import logging
@@ -83,7 +84,7 @@ def read_configfile(configfile, parse_files=True, load_defaults=True):
     '''
 
     if load_defaults:
-        p = DEFAULT_CONFIG.copy()
+        p = copy.deepcopy(DEFAULT_CONFIG)
     else:
         p = {}
     
diff --git a/aeolis/model.py b/aeolis/model.py
index edeabcd..a44553a 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -31,6 +31,7 @@ import os
 import importlib.machinery
 import importlib.metadata
 import time
+import copy
 import glob
 import logging
 import warnings
@@ -2445,7 +2446,7 @@ class AeoLiSRunner(AeoLiS):
         elif self.configfile.upper() == 'DEFAULT':
             self.changed = True
             self.configfile = os.path.abspath('aeolis.txt')
-            self.p = aeolis.constants.DEFAULT_CONFIG.copy()
+            self.p = copy.deepcopy(aeolis.constants.DEFAULT_CONFIG)
 
             # add default profile and time series
             self.p.update(dict(nx         = 99,
-- 
2.43.0


From 320a848010a7a8e037632d484be1b28ed37189b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 69/79] fix: use the bed composition file when the grain size
 distribution is given in integers

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index 9859c41..e7b4a93 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -83,7 +83,7 @@ def initialize(s, p):
     if isinstance(p['grain_dist'], str):
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
-    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int': 
+    if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and (p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int'): 
         # Both float and int are included as options for the grain dist to make sure there is no error when grain_dist is filled in as 1 instead of 1.0. 
         for i in range(nl):
             gs = makeiterable(p['grain_dist'])
-- 
2.43.0


From e3387529b6197a170d7bf4facd90fe2f63fab36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 70/79] fix: refuse two-dimensional grids without y-coordinates

---
 aeolis/inout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/inout.py b/aeolis/inout.py
index fa5b8ab..d7c084c 100644
--- a/aeolis/inout.py
+++ b/aeolis/inout.py
@@ -206,7 +206,7 @@ def check_configuration(p):
 
     # check validity of configuration
     if not isarray(p['xgrid_file']) or \
-       not isarray(p['bed_file']) or (not isarray(p['ygrid_file']) and p['ny'] > 0):
+       not isarray(p['bed_file']) or (not isarray(p['ygrid_file']) and (p['ny'] > 0 or p['xgrid_file'].ndim == 2)):
         logger.log_and_raise('Incomplete bathymetry definition', exc=ValueError)
 
     if isarray(p['wind_file']):
-- 
2.43.0


From a5e72fd8cd4af1029ba1ad18a25eafb5bc051207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 71/79] fix: report a grain size distribution file that does
 not exist

---
 aeolis/bed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/bed.py b/aeolis/bed.py
index e7b4a93..74adba9 100644
--- a/aeolis/bed.py
+++ b/aeolis/bed.py
@@ -80,7 +80,7 @@ def initialize(s, p):
     s['thlyr'][:,:,:] = p['layer_thickness']
 
     # initialize bed composition
-    if isinstance(p['grain_dist'], str):
+    if not np.issubdtype(p['grain_dist'].dtype, np.number):
             logger.log_and_raise('Grain size file not recognized as array, check file path and whether all values have been filled in.', exc=ValueError) 
 
     if p['bedcomp_file'] is None and p['grain_dist'].ndim == 1 and (p['grain_dist'].dtype == 'float64' or p['grain_dist'].dtype == 'int'): 
-- 
2.43.0


From 95ec836022aac7a9a4bcc8271763e5497d49db1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 72/79] fix: keep the request to clear output statistics until
 the next time step

---
 aeolis/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index a44553a..fa4d74e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2660,7 +2660,8 @@ class AeoLiSRunner(AeoLiS):
         model.AeoLiS.get_var
         '''
 
-        self.clear = clear
+        if clear:
+            self.clear = True
 
         if '_' in var:
             var0, stat = var.rsplit('_', 1)
-- 
2.43.0


From 7abdfe3f2ee6b3f563dec8b46d624cf6df69019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 73/79] fix: report progress of runs that stop at their start
 time

---
 aeolis/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index fa4d74e..1208e7e 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -2971,7 +2971,9 @@ class AeoLiSRunner(AeoLiS):
             Maximum time in seconds between subsequent progress prints (default: 60s)
         '''
 
-        p = (self.t-self.p['tstart']) / (self.p['tstop']-self.p['tstart'])
+        p = 1.
+        if self.p['tstop'] != self.p['tstart']:
+            p = (self.t-self.p['tstart']) / (self.p['tstop']-self.p['tstart'])
         pr = np.ceil(p/fraction)*fraction
         t = time.time()
         interval = t - self.tlog
-- 
2.43.0


From 466491a71042fd82c40c89b416e773503d6f7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 74/79] fix: store the time bounds of long runs as precisely as
 the times

---
 aeolis/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 796d8b3..9cd7b38 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -231,7 +231,7 @@ def initialize(outputfile, outputvars, s, p, dimensions):
         nc.variables['lon_bounds'].units = 'degrees_east'
         nc.variables['lon_bounds'].comment = 'longitude values at the west and east bounds of each pixel.'
             
-        nc.createVariable('time_bounds', 'float32', (u'time', u'nv'))
+        nc.createVariable('time_bounds', 'float64', (u'time', u'nv'))
         nc.variables['time_bounds'].units = 'seconds since %s' % print_value(p['refdate'])
         nc.variables['time_bounds'].comment = 'time bounds for each time value'
 
-- 
2.43.0


From 3ec040291e572bb412cfa4c4b854a663b045e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 75/79] fix: write the units of groundwater and soil moisture
 variables to the output file

---
 aeolis/netcdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/netcdf.py b/aeolis/netcdf.py
index 9cd7b38..63aae76 100644
--- a/aeolis/netcdf.py
+++ b/aeolis/netcdf.py
@@ -437,7 +437,7 @@ def parse_metadata(outputvars):
     if os.path.exists(pyfile):
         with open(pyfile, 'r') as fp:
             for line in fp:
-                m = re.match('^\s*\'(.*)\',\s*#\s*\[(.*)\]', line)
+                m = re.match('^\s*\'(.*)\',\s*(?:#NEWCH\s*)?#\s*\[([^\]]*)\]', line)
                 if m:
                     var, units = m.groups()
                     if var in meta.keys():
-- 
2.43.0


From 7776479cae3a15fcc0f1d583983936715ccc7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 76/79] fix: the wind direction in the output file is in
 degrees

---
 aeolis/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeolis/constants.py b/aeolis/constants.py
index d74ae45..e1d32e1 100644
--- a/aeolis/constants.py
+++ b/aeolis/constants.py
@@ -50,7 +50,7 @@ INITIAL_STATE = {
         'ustars0',                          # [m/s] Component of wind shear velocity in x-direction over a flat bed
         'ustarn0',                          # [m/s] Component of wind shear velocity in y-direction over a flat bed
 
-        'udir',                             # [rad] Wind direction
+        'udir',                             # [degrees] Wind direction
         'zs',                               # [m] Water level above reference (or equal to zb if zb > zs)
         'SWL',                              # [m] Still water level above reference
         'Hs',                               # [m] Wave height
-- 
2.43.0


From dea50f3a34cabbdd8932421718b83dd354fd375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 77/79] fix: report an unknown solver instead of raising
 UnboundLocalError

---
 aeolis/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aeolis/model.py b/aeolis/model.py
index 1208e7e..ef4bf23 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -694,6 +694,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
@@ -715,6 +717,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
             
         return solve
 
@@ -734,6 +738,8 @@ class AeoLiS(IBmi):
             solve = self.solve_steadystate()
         elif self.p['solver'].lower() == 'steadystatepieter':
             solve = self.solve_steadystatepieter()
+        else:
+            logger.log_and_raise('Unknown solver [%s]' % self.p['solver'], exc=ValueError)
 
         return solve
 
-- 
2.43.0


From d439530ca6503194bba344afac8468d2f642fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 78/79] fix: report a circular onshore boundary as not
 implemented instead of unknown

---
 aeolis/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/model.py b/aeolis/model.py
index ef4bf23..7420d93 100644
--- a/aeolis/model.py
+++ b/aeolis/model.py
@@ -908,7 +908,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
@@ -1286,7 +1286,7 @@ class AeoLiS(IBmi):
             elif p['boundary_onshore'] == 'gradient':
                 Am2[:,-1] = s['ds'][:,-2] / s['ds'][:,-3]
                 Am1[:,-1] = -1. - s['ds'][:,-2] / s['ds'][:,-3]
-            elif p['boundary_offshore'] == 'circular':
+            elif p['boundary_onshore'] == 'circular':
                 logger.log_and_raise('Cross-shore cricular boundary condition not yet implemented', exc=NotImplementedError)
             else:
                 logger.log_and_raise('Unknown onshore boundary condition [%s]' % self.p['boundary_onshore'], exc=ValueError)
-- 
2.43.0


From 43cfef5d9245f7d8adfd41ab520ea949d88f9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 79/79] fix: no separation bubbles on a profile in exactly
 alongshore wind

---
 aeolis/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeolis/wind.py b/aeolis/wind.py
index 27ec6bf..562a5d1 100644
--- a/aeolis/wind.py
+++ b/aeolis/wind.py
@@ -388,10 +388,10 @@ def separation1d(s, p):
         dy = dx
         direction = 1
     elif udir == 180:
-        dx = 0.0001
+        dx = np.inf # no slopes along an alongshore wind
         direction = 1
     elif udir == 360:
-        dx = 0.0001
+        dx = np.inf
         direction = 1
     else:
         udir = np.abs(udir-90)
-- 
2.43.0

